package main

// Go types that the scripts of a check can make records of (with ZV_GO=1 in
// the environment), and how their values are written down.

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

type ZvBase struct {
	Serial int64 `json:"serial"`
	Label  string
}

type ZvInner struct {
	ZvBase
	Depth int `json:"depth"`
}

type ZvPoint struct {
	X int64   `json:"x"`
	Y float64 `json:"y"`
}

type ZvShape interface {
	Area() float64
}

type ZvCircle struct {
	R      float64  `json:"r"`
	Name   string   `json:"name"`
	Center ZvPoint  `json:"center"`
	Owner  *ZvPoint `json:"owner"`
}

type ZvSquare struct {
	Side  int64     `json:"side"`
	Inner ZvShape   `json:"inner"`
	Parts []ZvShape `json:"parts"`
}

func (c *ZvCircle) Area() float64 { return c.R * c.R * 3 }
func (s *ZvSquare) Area() float64 { return float64(s.Side * s.Side) }

type ZvNode struct {
	Val  int64     `json:"val"`
	Left *ZvNode   `json:"left"`
	Kids []*ZvNode `json:"kids"`
}

type ZvAll struct {
	ZvInner
	I    int                `json:"i"`
	I64  int64              `json:"i64"`
	I32  int32              `json:"i32"`
	I16  int16              `json:"i16"`
	I8   int8               `json:"i8"`
	U    uint               `json:"u"`
	U64  uint64             `json:"u64"`
	U32  uint32             `json:"u32"`
	U8   uint8              `json:"u8"`
	F64  float64            `json:"f64"`
	F32  float32            `json:"f32"`
	S    string             `json:"s"`
	B    bool               `json:"b"`
	Tm   time.Time          `json:"tm"`
	Raw  []byte             `json:"raw"`
	Ss   []string           `json:"ss"`
	Is   []int64            `json:"is"`
	Iss  [][]int64          `json:"iss"`
	Fs   []float64          `json:"fs"`
	Bs   []bool             `json:"bs"`
	Mss  map[string]string  `json:"mss"`
	Msf  map[string]float64 `json:"msf"`
	Mif  map[int64]float64  `json:"mif"`
	Msh  map[string]ZvShape `json:"msh"`
	P    ZvPoint            `json:"p"`
	Pp   *ZvPoint           `json:"pp"`
	Ps   []ZvPoint          `json:"ps"`
	Pps  []*ZvPoint         `json:"pps"`
	Sh   ZvShape            `json:"sh"`
	Shs  []ZvShape          `json:"shs"`
	Next *ZvAll             `json:"next"`
	Node *ZvNode            `json:"node"`
}

// methods that give back what they are given
func (a *ZvAll) Me() *ZvAll                                      { return a }
func (a *ZvAll) EchoAll(x *ZvAll) *ZvAll                         { return x }
func (a *ZvAll) EchoPoint(x *ZvPoint) *ZvPoint                   { return x }
func (a *ZvAll) EchoPointV(x ZvPoint) ZvPoint                    { return x }
func (a *ZvAll) EchoNode(x *ZvNode) *ZvNode                      { return x }
func (a *ZvAll) EchoCircle(x *ZvCircle) *ZvCircle                { return x }
func (a *ZvAll) EchoSquare(x *ZvSquare) *ZvSquare                { return x }
func (a *ZvAll) EchoShape(x ZvShape) ZvShape                     { return x }
func (a *ZvAll) EchoI(x int) int                                 { return x }
func (a *ZvAll) EchoI64(x int64) int64                           { return x }
func (a *ZvAll) EchoI32(x int32) int32                           { return x }
func (a *ZvAll) EchoI16(x int16) int16                           { return x }
func (a *ZvAll) EchoI8(x int8) int8                              { return x }
func (a *ZvAll) EchoU(x uint) uint                               { return x }
func (a *ZvAll) EchoU64(x uint64) uint64                         { return x }
func (a *ZvAll) EchoU32(x uint32) uint32                         { return x }
func (a *ZvAll) EchoU8(x uint8) uint8                            { return x }
func (a *ZvAll) EchoF64(x float64) float64                       { return x }
func (a *ZvAll) EchoF32(x float32) float32                       { return x }
func (a *ZvAll) EchoS(x string) string                           { return x }
func (a *ZvAll) EchoB(x bool) bool                               { return x }
func (a *ZvAll) EchoTm(x time.Time) time.Time                    { return x }
func (a *ZvAll) EchoRaw(x []byte) []byte                         { return x }
func (a *ZvAll) EchoSs(x []string) []string                      { return x }
func (a *ZvAll) EchoIs(x []int64) []int64                        { return x }
func (a *ZvAll) EchoIss(x [][]int64) [][]int64                   { return x }
func (a *ZvAll) EchoPs(x []ZvPoint) []ZvPoint                    { return x }
func (a *ZvAll) EchoPps(x []*ZvPoint) []*ZvPoint                 { return x }
func (a *ZvAll) EchoShs(x []ZvShape) []ZvShape                   { return x }
func (a *ZvAll) EchoMss(x map[string]string) map[string]string   { return x }
func (a *ZvAll) EchoMsf(x map[string]float64) map[string]float64 { return x }
func (a *ZvAll) EchoMif(x map[int64]float64) map[int64]float64   { return x }
func (a *ZvAll) EchoMsh(x map[string]ZvShape) map[string]ZvShape { return x }
func (a *ZvAll) Two(x int64, p *ZvPoint) (*ZvPoint, int64)       { return p, x }
func (a *ZvAll) Fail(x int64) (int64, error)                     { return x, fmt.Errorf("failed with %d", x) }

var goTypes = []struct {
	names []string
	mk    func() interface{}
}{
	{[]string{"zvbase", "ZvBase"}, func() interface{} { return &ZvBase{} }},
	{[]string{"zvinner", "ZvInner"}, func() interface{} { return &ZvInner{} }},
	{[]string{"zvpoint", "ZvPoint"}, func() interface{} { return &ZvPoint{} }},
	{[]string{"zvcircle", "ZvCircle"}, func() interface{} { return &ZvCircle{} }},
	{[]string{"zvsquare", "ZvSquare"}, func() interface{} { return &ZvSquare{} }},
	{[]string{"zvnode", "ZvNode"}, func() interface{} { return &ZvNode{} }},
	{[]string{"zvall", "ZvAll"}, func() interface{} { return &ZvAll{} }},
}

func init() {
	if os.Getenv("ZV_GO") == "" {
		return
	}
	zygo.RegisterDemoStructs()
	for i := range goTypes {
		t := goTypes[i]
		zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true,
			Factory: func(env *zygo.Zlisp, h *zygo.SexpHash) (interface{}, error) { return t.mk(), nil }}, true, t.names...)
	}
}

// godump writes down a Go value. Pointers are numbered in the order
// they are met, so that what is shared is seen.
type godumper struct {
	seen map[uintptr]int
}

func godump(v interface{}) interface{} {
	d := &godumper{seen: map[uintptr]int{}}
	return d.dump(reflect.ValueOf(v), 0)
}

var timeType = reflect.TypeOf(time.Time{})

func (d *godumper) dump(v reflect.Value, depth int) interface{} {
	if !v.IsValid() {
		return []interface{}{"nil"}
	}
	if depth > 60 {
		return []interface{}{"deep"}
	}
	if v.Type() == timeType {
		return []interface{}{"time", v.Interface().(time.Time).UTC().Format(time.RFC3339Nano)}
	}
	switch v.Kind() {
	case reflect.Bool:
		return []interface{}{"bool", strconv.FormatBool(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return []interface{}{v.Kind().String(), strconv.FormatInt(v.Int(), 10)}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return []interface{}{v.Kind().String(), strconv.FormatUint(v.Uint(), 10)}
	case reflect.Float32, reflect.Float64:
		return []interface{}{v.Kind().String(), fmt.Sprintf("%016x", math.Float64bits(v.Float()))}
	case reflect.String:
		return []interface{}{"string", hex.EncodeToString([]byte(v.String()))}
	case reflect.Ptr:
		if v.IsNil() {
			return []interface{}{"nil"}
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			return []interface{}{"same", n}
		}
		n := len(d.seen) + 1
		d.seen[v.Pointer()] = n
		return []interface{}{"ptr", n, d.dump(v.Elem(), depth+1)}
	case reflect.Interface:
		if v.IsNil() {
			return []interface{}{"nil"}
		}
		return d.dump(v.Elem(), depth+1)
	case reflect.Struct:
		fs := []interface{}{}
		for i := 0; i < v.NumField(); i++ {
			fs = append(fs, []interface{}{v.Type().Field(i).Name, d.dump(v.Field(i), depth+1)})
		}
		return []interface{}{"struct", v.Type().Name(), fs}
	case reflect.Slice:
		if v.IsNil() {
			return []interface{}{"nil"}
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return []interface{}{"raw", hex.EncodeToString(v.Bytes())}
		}
		es := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			es = append(es, d.dump(v.Index(i), depth+1))
		}
		return []interface{}{"slice", es}
	case reflect.Map:
		if v.IsNil() {
			return []interface{}{"nil"}
		}
		es := [][]interface{}{}
		for _, k := range v.MapKeys() {
			es = append(es, []interface{}{d.dump(k, depth+1), d.dump(v.MapIndex(k), depth+1)})
		}
		sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i][0]) < fmt.Sprint(es[j][0]) })
		return []interface{}{"map", es}
	}
	return []interface{}{"other", v.Type().String()}
}
