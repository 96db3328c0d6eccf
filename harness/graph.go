package main

// A JSON form for pointer graphs (schemas refer to each other in cycles).

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
)

type graphW struct {
	ids  map[any]int
	objs []any
}

func (g *graphW) enc(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		k := v.Interface()
		if id, ok := g.ids[k]; ok {
			return map[string]any{"@": id}
		}
		id := len(g.objs)
		g.ids[k] = id
		g.objs = append(g.objs, nil)
		g.objs[id] = g.enc(v.Elem())
		return map[string]any{"@": id}
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && !v.Field(i).IsZero() {
				m[v.Type().Field(i).Name] = g.enc(v.Field(i))
			}
		}
		return m
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return nil
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, g.enc(v.Index(i)))
		}
		return l
	case reflect.Uint64, reflect.Uint8, reflect.Uint:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Int64, reflect.Int:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	}
	panic("graph: " + v.Type().String())
}

// dumpGraph renders v (a pointer) as JSON.
func dumpGraph(v any) json.RawMessage {
	g := &graphW{ids: map[any]int{}}
	root := g.enc(reflect.ValueOf(v))
	b, err := json.Marshal(map[string]any{"root": root, "objs": g.objs})
	if err != nil {
		panic(err)
	}
	return b
}

type graphR struct {
	objs []any
	vals []reflect.Value
}

func (g *graphR) dec(x any, v reflect.Value) error {
	if x == nil {
		return nil
	}
	switch v.Kind() {
	case reflect.Pointer:
		m, ok := x.(map[string]any)
		if !ok {
			return fmt.Errorf("pointer expected")
		}
		id := int(m["@"].(float64))
		if !g.vals[id].IsValid() {
			n := reflect.New(v.Type().Elem())
			g.vals[id] = n
			if err := g.dec(g.objs[id], n.Elem()); err != nil {
				return err
			}
		}
		v.Set(g.vals[id])
	case reflect.Struct:
		m, ok := x.(map[string]any)
		if !ok {
			return fmt.Errorf("struct expected")
		}
		for k, e := range m {
			f := v.FieldByName(k)
			if !f.IsValid() {
				return fmt.Errorf("no field %s", k)
			}
			if err := g.dec(e, f); err != nil {
				return err
			}
		}
	case reflect.Slice:
		l := x.([]any)
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for i, e := range l {
			if err := g.dec(e, v.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Array:
		for i, e := range x.([]any) {
			if err := g.dec(e, v.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Uint64, reflect.Uint8, reflect.Uint:
		u, err := strconv.ParseUint(x.(string), 10, 64)
		if err != nil {
			return err
		}
		v.SetUint(u)
	case reflect.Int64, reflect.Int:
		i, err := strconv.ParseInt(x.(string), 10, 64)
		if err != nil {
			return err
		}
		v.SetInt(i)
	case reflect.String:
		v.SetString(x.(string))
	case reflect.Bool:
		v.SetBool(x.(bool))
	}
	return nil
}

// loadGraph reads what dumpGraph wrote into v (a pointer to a pointer).
func loadGraph(b []byte, v any) error {
	var d struct {
		Root any
		Objs []any
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return err
	}
	g := &graphR{objs: d.Objs, vals: make([]reflect.Value, len(d.Objs))}
	return g.dec(d.Root, reflect.ValueOf(v).Elem())
}
