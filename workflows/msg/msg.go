// Package msg has services whose methods echo their argument. Written by tools/msg.py.
package msg

import (
	"context"
	"sync"
	"time"

	"verif.local/workflows/msg/other"
)

var _ time.Time

var (
	mu  sync.Mutex
	got any
)

func saw(v any) {
	mu.Lock()
	defer mu.Unlock()
	got = v
}

// Got is the argument of the last call.
func Got() any {
	mu.Lock()
	defer mu.Unlock()
	return got
}

type Flat struct {
	A int
	B string
	C bool
	D float64
	E uint8
	F []byte
}

type Nest struct {
	F  Flat
	Fs []Flat
	M  map[string]Flat
	P  *Flat
	N  map[string]int64
	S  []string
}

type Tree struct {
	V    int64
	L, R *Tree
	Kids []Tree
}

type Empty struct{}

type HasReset struct{ Reset, Descriptor string }

type Key struct{ K string }

type Snake struct {
	User_name string
	ID        int
	URLPath   string
	X1        int8
	V2x       uint16
	A_1       int
	String_   string
	Msg       string
}

type Ptr struct {
	F *Flat
	T *Tree
	E *Empty
}

type Deep struct {
	N  Nest
	P  *Nest
	M  map[int64]Nest
	Bs []bool
	Fl []float32
	Is []int
	U  map[uint32]float64
	I8 map[int8]int16
}

type Blob struct {
	B  []byte
	Bs [][]byte
}

type Enum int

type Names []string

type Embeds struct {
	Flat
	X int
}

type Outer struct {
	*Flat
	other.Deep
	Y int
}

type Hidden struct {
	A int
	b int
}

type HasIface struct{ A any }

type HasChan struct{ A chan int }

type HasTime struct{ A time.Time }

type HasErr struct{ A error }

type Alias = Flat

type Both struct {
	A Flat
	B other.Flat
}

type HasArr struct{ A [2]int }

type HasGrid struct{ A [][]int }

type HasMM struct{ A map[string]map[string]int }

type HasPP struct{ A *int }

type HasPS struct{ A *[]string }

type HasSP struct{ A []*Flat }

type HasMP struct{ A map[string]*Flat }

type Multi struct{ A, B, C int }

type Ring struct {
	A int
	M map[string]Ring
	S []Ring
}

type Gen[T any] struct{ A T }

type HasGen struct{ A Gen[string] }

type HasAnon struct {
	A struct{ B int }
}

type Tagged struct {
	A int    `json:"a" bson:"b"`
	B string `json:"bee,omitempty"`
	C string `json:"c,omitempty"`
}

type Basics interface {
	BasicsM0(ctx context.Context, a bool) (bool, error)
	BasicsM1(ctx context.Context, a string) (string, error)
	BasicsM2(ctx context.Context, a int) (int, error)
	BasicsM3(ctx context.Context, a int8) (int8, error)
	BasicsM4(ctx context.Context, a int16) (int16, error)
	BasicsM5(ctx context.Context, a int32) (int32, error)
	BasicsM6(ctx context.Context, a int64) (int64, error)
	BasicsM7(ctx context.Context, a uint) (uint, error)
	BasicsM8(ctx context.Context, a uint8) (uint8, error)
	BasicsM9(ctx context.Context, a uint16) (uint16, error)
	BasicsM10(ctx context.Context, a uint32) (uint32, error)
	BasicsM11(ctx context.Context, a uint64) (uint64, error)
	BasicsM12(ctx context.Context, a byte) (byte, error)
	BasicsM13(ctx context.Context, a rune) (rune, error)
	BasicsM14(ctx context.Context, a float32) (float32, error)
	BasicsM15(ctx context.Context, a float64) (float64, error)
}

type BasicsImpl struct{}

func NewBasicsImpl(ctx context.Context) (*BasicsImpl, error) { return &BasicsImpl{}, nil }

func (s *BasicsImpl) BasicsM0(ctx context.Context, a bool) (bool, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM1(ctx context.Context, a string) (string, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM2(ctx context.Context, a int) (int, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM3(ctx context.Context, a int8) (int8, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM4(ctx context.Context, a int16) (int16, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM5(ctx context.Context, a int32) (int32, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM6(ctx context.Context, a int64) (int64, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM7(ctx context.Context, a uint) (uint, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM8(ctx context.Context, a uint8) (uint8, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM9(ctx context.Context, a uint16) (uint16, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM10(ctx context.Context, a uint32) (uint32, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM11(ctx context.Context, a uint64) (uint64, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM12(ctx context.Context, a byte) (byte, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM13(ctx context.Context, a rune) (rune, error) { saw(a); return a, nil }

func (s *BasicsImpl) BasicsM14(ctx context.Context, a float32) (float32, error) {
	saw(a)
	return a, nil
}

func (s *BasicsImpl) BasicsM15(ctx context.Context, a float64) (float64, error) {
	saw(a)
	return a, nil
}

type Slices interface {
	SlicesM0(ctx context.Context, a []bool) ([]bool, error)
	SlicesM1(ctx context.Context, a []string) ([]string, error)
	SlicesM2(ctx context.Context, a []int) ([]int, error)
	SlicesM3(ctx context.Context, a []int8) ([]int8, error)
	SlicesM4(ctx context.Context, a []int16) ([]int16, error)
	SlicesM5(ctx context.Context, a []int32) ([]int32, error)
	SlicesM6(ctx context.Context, a []int64) ([]int64, error)
	SlicesM7(ctx context.Context, a []uint) ([]uint, error)
	SlicesM8(ctx context.Context, a []uint8) ([]uint8, error)
	SlicesM9(ctx context.Context, a []uint16) ([]uint16, error)
	SlicesM10(ctx context.Context, a []uint32) ([]uint32, error)
	SlicesM11(ctx context.Context, a []uint64) ([]uint64, error)
	SlicesM12(ctx context.Context, a []byte) ([]byte, error)
	SlicesM13(ctx context.Context, a []rune) ([]rune, error)
	SlicesM14(ctx context.Context, a []float32) ([]float32, error)
	SlicesM15(ctx context.Context, a []float64) ([]float64, error)
}

type SlicesImpl struct{}

func NewSlicesImpl(ctx context.Context) (*SlicesImpl, error) { return &SlicesImpl{}, nil }

func (s *SlicesImpl) SlicesM0(ctx context.Context, a []bool) ([]bool, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM1(ctx context.Context, a []string) ([]string, error) {
	saw(a)
	return a, nil
}

func (s *SlicesImpl) SlicesM2(ctx context.Context, a []int) ([]int, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM3(ctx context.Context, a []int8) ([]int8, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM4(ctx context.Context, a []int16) ([]int16, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM5(ctx context.Context, a []int32) ([]int32, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM6(ctx context.Context, a []int64) ([]int64, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM7(ctx context.Context, a []uint) ([]uint, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM8(ctx context.Context, a []uint8) ([]uint8, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM9(ctx context.Context, a []uint16) ([]uint16, error) {
	saw(a)
	return a, nil
}

func (s *SlicesImpl) SlicesM10(ctx context.Context, a []uint32) ([]uint32, error) {
	saw(a)
	return a, nil
}

func (s *SlicesImpl) SlicesM11(ctx context.Context, a []uint64) ([]uint64, error) {
	saw(a)
	return a, nil
}

func (s *SlicesImpl) SlicesM12(ctx context.Context, a []byte) ([]byte, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM13(ctx context.Context, a []rune) ([]rune, error) { saw(a); return a, nil }

func (s *SlicesImpl) SlicesM14(ctx context.Context, a []float32) ([]float32, error) {
	saw(a)
	return a, nil
}

func (s *SlicesImpl) SlicesM15(ctx context.Context, a []float64) ([]float64, error) {
	saw(a)
	return a, nil
}

type Keys interface {
	KeysM0(ctx context.Context, a map[bool]string) (map[bool]string, error)
	KeysM1(ctx context.Context, a map[string]string) (map[string]string, error)
	KeysM2(ctx context.Context, a map[int]string) (map[int]string, error)
	KeysM3(ctx context.Context, a map[int8]string) (map[int8]string, error)
	KeysM4(ctx context.Context, a map[int16]string) (map[int16]string, error)
	KeysM5(ctx context.Context, a map[int32]string) (map[int32]string, error)
	KeysM6(ctx context.Context, a map[int64]string) (map[int64]string, error)
	KeysM7(ctx context.Context, a map[uint]string) (map[uint]string, error)
	KeysM8(ctx context.Context, a map[uint8]string) (map[uint8]string, error)
	KeysM9(ctx context.Context, a map[uint16]string) (map[uint16]string, error)
	KeysM10(ctx context.Context, a map[uint32]string) (map[uint32]string, error)
	KeysM11(ctx context.Context, a map[uint64]string) (map[uint64]string, error)
}

type KeysImpl struct{}

func NewKeysImpl(ctx context.Context) (*KeysImpl, error) { return &KeysImpl{}, nil }

func (s *KeysImpl) KeysM0(ctx context.Context, a map[bool]string) (map[bool]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM1(ctx context.Context, a map[string]string) (map[string]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM2(ctx context.Context, a map[int]string) (map[int]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM3(ctx context.Context, a map[int8]string) (map[int8]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM4(ctx context.Context, a map[int16]string) (map[int16]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM5(ctx context.Context, a map[int32]string) (map[int32]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM6(ctx context.Context, a map[int64]string) (map[int64]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM7(ctx context.Context, a map[uint]string) (map[uint]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM8(ctx context.Context, a map[uint8]string) (map[uint8]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM9(ctx context.Context, a map[uint16]string) (map[uint16]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM10(ctx context.Context, a map[uint32]string) (map[uint32]string, error) {
	saw(a)
	return a, nil
}

func (s *KeysImpl) KeysM11(ctx context.Context, a map[uint64]string) (map[uint64]string, error) {
	saw(a)
	return a, nil
}

type Vals interface {
	ValsM0(ctx context.Context, a map[string]bool) (map[string]bool, error)
	ValsM1(ctx context.Context, a map[string]string) (map[string]string, error)
	ValsM2(ctx context.Context, a map[string]int) (map[string]int, error)
	ValsM3(ctx context.Context, a map[string]int8) (map[string]int8, error)
	ValsM4(ctx context.Context, a map[string]int16) (map[string]int16, error)
	ValsM5(ctx context.Context, a map[string]int32) (map[string]int32, error)
	ValsM6(ctx context.Context, a map[string]int64) (map[string]int64, error)
	ValsM7(ctx context.Context, a map[string]uint) (map[string]uint, error)
	ValsM8(ctx context.Context, a map[string]uint8) (map[string]uint8, error)
	ValsM9(ctx context.Context, a map[string]uint16) (map[string]uint16, error)
	ValsM10(ctx context.Context, a map[string]uint32) (map[string]uint32, error)
	ValsM11(ctx context.Context, a map[string]uint64) (map[string]uint64, error)
	ValsM12(ctx context.Context, a map[string]byte) (map[string]byte, error)
	ValsM13(ctx context.Context, a map[string]rune) (map[string]rune, error)
	ValsM14(ctx context.Context, a map[string]float32) (map[string]float32, error)
	ValsM15(ctx context.Context, a map[string]float64) (map[string]float64, error)
}

type ValsImpl struct{}

func NewValsImpl(ctx context.Context) (*ValsImpl, error) { return &ValsImpl{}, nil }

func (s *ValsImpl) ValsM0(ctx context.Context, a map[string]bool) (map[string]bool, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM1(ctx context.Context, a map[string]string) (map[string]string, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM2(ctx context.Context, a map[string]int) (map[string]int, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM3(ctx context.Context, a map[string]int8) (map[string]int8, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM4(ctx context.Context, a map[string]int16) (map[string]int16, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM5(ctx context.Context, a map[string]int32) (map[string]int32, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM6(ctx context.Context, a map[string]int64) (map[string]int64, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM7(ctx context.Context, a map[string]uint) (map[string]uint, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM8(ctx context.Context, a map[string]uint8) (map[string]uint8, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM9(ctx context.Context, a map[string]uint16) (map[string]uint16, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM10(ctx context.Context, a map[string]uint32) (map[string]uint32, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM11(ctx context.Context, a map[string]uint64) (map[string]uint64, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM12(ctx context.Context, a map[string]byte) (map[string]byte, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM13(ctx context.Context, a map[string]rune) (map[string]rune, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM14(ctx context.Context, a map[string]float32) (map[string]float32, error) {
	saw(a)
	return a, nil
}

func (s *ValsImpl) ValsM15(ctx context.Context, a map[string]float64) (map[string]float64, error) {
	saw(a)
	return a, nil
}

type Ptrs interface {
	PtrsM0(ctx context.Context, a *bool) (*bool, error)
	PtrsM1(ctx context.Context, a *string) (*string, error)
	PtrsM2(ctx context.Context, a *int) (*int, error)
	PtrsM3(ctx context.Context, a *int8) (*int8, error)
	PtrsM4(ctx context.Context, a *int16) (*int16, error)
	PtrsM5(ctx context.Context, a *int32) (*int32, error)
	PtrsM6(ctx context.Context, a *int64) (*int64, error)
	PtrsM7(ctx context.Context, a *uint) (*uint, error)
	PtrsM8(ctx context.Context, a *uint8) (*uint8, error)
	PtrsM9(ctx context.Context, a *uint16) (*uint16, error)
	PtrsM10(ctx context.Context, a *uint32) (*uint32, error)
	PtrsM11(ctx context.Context, a *uint64) (*uint64, error)
	PtrsM12(ctx context.Context, a *byte) (*byte, error)
	PtrsM13(ctx context.Context, a *rune) (*rune, error)
	PtrsM14(ctx context.Context, a *float32) (*float32, error)
	PtrsM15(ctx context.Context, a *float64) (*float64, error)
}

type PtrsImpl struct{}

func NewPtrsImpl(ctx context.Context) (*PtrsImpl, error) { return &PtrsImpl{}, nil }

func (s *PtrsImpl) PtrsM0(ctx context.Context, a *bool) (*bool, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM1(ctx context.Context, a *string) (*string, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM2(ctx context.Context, a *int) (*int, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM3(ctx context.Context, a *int8) (*int8, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM4(ctx context.Context, a *int16) (*int16, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM5(ctx context.Context, a *int32) (*int32, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM6(ctx context.Context, a *int64) (*int64, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM7(ctx context.Context, a *uint) (*uint, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM8(ctx context.Context, a *uint8) (*uint8, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM9(ctx context.Context, a *uint16) (*uint16, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM10(ctx context.Context, a *uint32) (*uint32, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM11(ctx context.Context, a *uint64) (*uint64, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM12(ctx context.Context, a *byte) (*byte, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM13(ctx context.Context, a *rune) (*rune, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM14(ctx context.Context, a *float32) (*float32, error) { saw(a); return a, nil }

func (s *PtrsImpl) PtrsM15(ctx context.Context, a *float64) (*float64, error) { saw(a); return a, nil }

type Structs interface {
	StructsM0(ctx context.Context, a Flat) (Flat, error)
	StructsM1(ctx context.Context, a Nest) (Nest, error)
	StructsM2(ctx context.Context, a Tree) (Tree, error)
	StructsM3(ctx context.Context, a Empty) (Empty, error)
	StructsM4(ctx context.Context, a Snake) (Snake, error)
	StructsM5(ctx context.Context, a Ptr) (Ptr, error)
	StructsM6(ctx context.Context, a Deep) (Deep, error)
}

type StructsImpl struct{}

func NewStructsImpl(ctx context.Context) (*StructsImpl, error) { return &StructsImpl{}, nil }

func (s *StructsImpl) StructsM0(ctx context.Context, a Flat) (Flat, error) { saw(a); return a, nil }

func (s *StructsImpl) StructsM1(ctx context.Context, a Nest) (Nest, error) { saw(a); return a, nil }

func (s *StructsImpl) StructsM2(ctx context.Context, a Tree) (Tree, error) { saw(a); return a, nil }

func (s *StructsImpl) StructsM3(ctx context.Context, a Empty) (Empty, error) { saw(a); return a, nil }

func (s *StructsImpl) StructsM4(ctx context.Context, a Snake) (Snake, error) { saw(a); return a, nil }

func (s *StructsImpl) StructsM5(ctx context.Context, a Ptr) (Ptr, error) { saw(a); return a, nil }

func (s *StructsImpl) StructsM6(ctx context.Context, a Deep) (Deep, error) { saw(a); return a, nil }

type PtrStructs interface {
	PtrStructsM0(ctx context.Context, a *Flat) (*Flat, error)
	PtrStructsM1(ctx context.Context, a *Nest) (*Nest, error)
	PtrStructsM2(ctx context.Context, a *Tree) (*Tree, error)
	PtrStructsM3(ctx context.Context, a *Empty) (*Empty, error)
	PtrStructsM4(ctx context.Context, a *Snake) (*Snake, error)
	PtrStructsM5(ctx context.Context, a *Ptr) (*Ptr, error)
	PtrStructsM6(ctx context.Context, a *Deep) (*Deep, error)
}

type PtrStructsImpl struct{}

func NewPtrStructsImpl(ctx context.Context) (*PtrStructsImpl, error) { return &PtrStructsImpl{}, nil }

func (s *PtrStructsImpl) PtrStructsM0(ctx context.Context, a *Flat) (*Flat, error) {
	saw(a)
	return a, nil
}

func (s *PtrStructsImpl) PtrStructsM1(ctx context.Context, a *Nest) (*Nest, error) {
	saw(a)
	return a, nil
}

func (s *PtrStructsImpl) PtrStructsM2(ctx context.Context, a *Tree) (*Tree, error) {
	saw(a)
	return a, nil
}

func (s *PtrStructsImpl) PtrStructsM3(ctx context.Context, a *Empty) (*Empty, error) {
	saw(a)
	return a, nil
}

func (s *PtrStructsImpl) PtrStructsM4(ctx context.Context, a *Snake) (*Snake, error) {
	saw(a)
	return a, nil
}

func (s *PtrStructsImpl) PtrStructsM5(ctx context.Context, a *Ptr) (*Ptr, error) {
	saw(a)
	return a, nil
}

func (s *PtrStructsImpl) PtrStructsM6(ctx context.Context, a *Deep) (*Deep, error) {
	saw(a)
	return a, nil
}

type SliceStructs interface {
	SliceStructsM0(ctx context.Context, a []Flat) ([]Flat, error)
	SliceStructsM1(ctx context.Context, a []Nest) ([]Nest, error)
	SliceStructsM2(ctx context.Context, a []Tree) ([]Tree, error)
	SliceStructsM3(ctx context.Context, a []Empty) ([]Empty, error)
	SliceStructsM4(ctx context.Context, a []Snake) ([]Snake, error)
	SliceStructsM5(ctx context.Context, a []Ptr) ([]Ptr, error)
	SliceStructsM6(ctx context.Context, a []Deep) ([]Deep, error)
}

type SliceStructsImpl struct{}

func NewSliceStructsImpl(ctx context.Context) (*SliceStructsImpl, error) {
	return &SliceStructsImpl{}, nil
}

func (s *SliceStructsImpl) SliceStructsM0(ctx context.Context, a []Flat) ([]Flat, error) {
	saw(a)
	return a, nil
}

func (s *SliceStructsImpl) SliceStructsM1(ctx context.Context, a []Nest) ([]Nest, error) {
	saw(a)
	return a, nil
}

func (s *SliceStructsImpl) SliceStructsM2(ctx context.Context, a []Tree) ([]Tree, error) {
	saw(a)
	return a, nil
}

func (s *SliceStructsImpl) SliceStructsM3(ctx context.Context, a []Empty) ([]Empty, error) {
	saw(a)
	return a, nil
}

func (s *SliceStructsImpl) SliceStructsM4(ctx context.Context, a []Snake) ([]Snake, error) {
	saw(a)
	return a, nil
}

func (s *SliceStructsImpl) SliceStructsM5(ctx context.Context, a []Ptr) ([]Ptr, error) {
	saw(a)
	return a, nil
}

func (s *SliceStructsImpl) SliceStructsM6(ctx context.Context, a []Deep) ([]Deep, error) {
	saw(a)
	return a, nil
}

type MapStructs interface {
	MapStructsM0(ctx context.Context, a map[string]Flat) (map[string]Flat, error)
	MapStructsM1(ctx context.Context, a map[string]Nest) (map[string]Nest, error)
	MapStructsM2(ctx context.Context, a map[string]Tree) (map[string]Tree, error)
	MapStructsM3(ctx context.Context, a map[string]Empty) (map[string]Empty, error)
	MapStructsM4(ctx context.Context, a map[string]Snake) (map[string]Snake, error)
	MapStructsM5(ctx context.Context, a map[string]Ptr) (map[string]Ptr, error)
	MapStructsM6(ctx context.Context, a map[string]Deep) (map[string]Deep, error)
	MapStructsM7(ctx context.Context, a map[int32]Flat) (map[int32]Flat, error)
	MapStructsM8(ctx context.Context, a map[int]Nest) (map[int]Nest, error)
}

type MapStructsImpl struct{}

func NewMapStructsImpl(ctx context.Context) (*MapStructsImpl, error) { return &MapStructsImpl{}, nil }

func (s *MapStructsImpl) MapStructsM0(ctx context.Context, a map[string]Flat) (map[string]Flat, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM1(ctx context.Context, a map[string]Nest) (map[string]Nest, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM2(ctx context.Context, a map[string]Tree) (map[string]Tree, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM3(ctx context.Context, a map[string]Empty) (map[string]Empty, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM4(ctx context.Context, a map[string]Snake) (map[string]Snake, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM5(ctx context.Context, a map[string]Ptr) (map[string]Ptr, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM6(ctx context.Context, a map[string]Deep) (map[string]Deep, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM7(ctx context.Context, a map[int32]Flat) (map[int32]Flat, error) {
	saw(a)
	return a, nil
}

func (s *MapStructsImpl) MapStructsM8(ctx context.Context, a map[int]Nest) (map[int]Nest, error) {
	saw(a)
	return a, nil
}

type Odd00 interface {
	Odd00M0(ctx context.Context, a []*Flat) ([]*Flat, error)
}

type Odd00Impl struct{}

func NewOdd00Impl(ctx context.Context) (*Odd00Impl, error) { return &Odd00Impl{}, nil }

func (s *Odd00Impl) Odd00M0(ctx context.Context, a []*Flat) ([]*Flat, error) { saw(a); return a, nil }

type Odd01 interface {
	Odd01M0(ctx context.Context, a map[string]*Flat) (map[string]*Flat, error)
}

type Odd01Impl struct{}

func NewOdd01Impl(ctx context.Context) (*Odd01Impl, error) { return &Odd01Impl{}, nil }

func (s *Odd01Impl) Odd01M0(ctx context.Context, a map[string]*Flat) (map[string]*Flat, error) {
	saw(a)
	return a, nil
}

type Odd02 interface {
	Odd02M0(ctx context.Context, a []*int) ([]*int, error)
}

type Odd02Impl struct{}

func NewOdd02Impl(ctx context.Context) (*Odd02Impl, error) { return &Odd02Impl{}, nil }

func (s *Odd02Impl) Odd02M0(ctx context.Context, a []*int) ([]*int, error) { saw(a); return a, nil }

type Odd03 interface {
	Odd03M0(ctx context.Context, a map[string]*int) (map[string]*int, error)
}

type Odd03Impl struct{}

func NewOdd03Impl(ctx context.Context) (*Odd03Impl, error) { return &Odd03Impl{}, nil }

func (s *Odd03Impl) Odd03M0(ctx context.Context, a map[string]*int) (map[string]*int, error) {
	saw(a)
	return a, nil
}

type Odd04 interface {
	Odd04M0(ctx context.Context, a **int) (**int, error)
}

type Odd04Impl struct{}

func NewOdd04Impl(ctx context.Context) (*Odd04Impl, error) { return &Odd04Impl{}, nil }

func (s *Odd04Impl) Odd04M0(ctx context.Context, a **int) (**int, error) { saw(a); return a, nil }

type Odd05 interface {
	Odd05M0(ctx context.Context, a **Flat) (**Flat, error)
}

type Odd05Impl struct{}

func NewOdd05Impl(ctx context.Context) (*Odd05Impl, error) { return &Odd05Impl{}, nil }

func (s *Odd05Impl) Odd05M0(ctx context.Context, a **Flat) (**Flat, error) { saw(a); return a, nil }

type Odd06 interface {
	Odd06M0(ctx context.Context, a [][]int) ([][]int, error)
}

type Odd06Impl struct{}

func NewOdd06Impl(ctx context.Context) (*Odd06Impl, error) { return &Odd06Impl{}, nil }

func (s *Odd06Impl) Odd06M0(ctx context.Context, a [][]int) ([][]int, error) { saw(a); return a, nil }

type Odd07 interface {
	Odd07M0(ctx context.Context, a [][]Flat) ([][]Flat, error)
}

type Odd07Impl struct{}

func NewOdd07Impl(ctx context.Context) (*Odd07Impl, error) { return &Odd07Impl{}, nil }

func (s *Odd07Impl) Odd07M0(ctx context.Context, a [][]Flat) ([][]Flat, error) { saw(a); return a, nil }

type Odd08 interface {
	Odd08M0(ctx context.Context, a map[string][]int) (map[string][]int, error)
}

type Odd08Impl struct{}

func NewOdd08Impl(ctx context.Context) (*Odd08Impl, error) { return &Odd08Impl{}, nil }

func (s *Odd08Impl) Odd08M0(ctx context.Context, a map[string][]int) (map[string][]int, error) {
	saw(a)
	return a, nil
}

type Odd09 interface {
	Odd09M0(ctx context.Context, a map[string][]Flat) (map[string][]Flat, error)
}

type Odd09Impl struct{}

func NewOdd09Impl(ctx context.Context) (*Odd09Impl, error) { return &Odd09Impl{}, nil }

func (s *Odd09Impl) Odd09M0(ctx context.Context, a map[string][]Flat) (map[string][]Flat, error) {
	saw(a)
	return a, nil
}

type Odd10 interface {
	Odd10M0(ctx context.Context, a map[string]map[string]int) (map[string]map[string]int, error)
}

type Odd10Impl struct{}

func NewOdd10Impl(ctx context.Context) (*Odd10Impl, error) { return &Odd10Impl{}, nil }

func (s *Odd10Impl) Odd10M0(ctx context.Context, a map[string]map[string]int) (map[string]map[string]int, error) {
	saw(a)
	return a, nil
}

type Odd11 interface {
	Odd11M0(ctx context.Context, a []map[string]int) ([]map[string]int, error)
}

type Odd11Impl struct{}

func NewOdd11Impl(ctx context.Context) (*Odd11Impl, error) { return &Odd11Impl{}, nil }

func (s *Odd11Impl) Odd11M0(ctx context.Context, a []map[string]int) ([]map[string]int, error) {
	saw(a)
	return a, nil
}

type Odd12 interface {
	Odd12M0(ctx context.Context, a map[float64]int) (map[float64]int, error)
}

type Odd12Impl struct{}

func NewOdd12Impl(ctx context.Context) (*Odd12Impl, error) { return &Odd12Impl{}, nil }

func (s *Odd12Impl) Odd12M0(ctx context.Context, a map[float64]int) (map[float64]int, error) {
	saw(a)
	return a, nil
}

type Odd13 interface {
	Odd13M0(ctx context.Context, a map[byte]int) (map[byte]int, error)
}

type Odd13Impl struct{}

func NewOdd13Impl(ctx context.Context) (*Odd13Impl, error) { return &Odd13Impl{}, nil }

func (s *Odd13Impl) Odd13M0(ctx context.Context, a map[byte]int) (map[byte]int, error) {
	saw(a)
	return a, nil
}

type Odd14 interface {
	Odd14M0(ctx context.Context, a map[rune]int) (map[rune]int, error)
}

type Odd14Impl struct{}

func NewOdd14Impl(ctx context.Context) (*Odd14Impl, error) { return &Odd14Impl{}, nil }

func (s *Odd14Impl) Odd14M0(ctx context.Context, a map[rune]int) (map[rune]int, error) {
	saw(a)
	return a, nil
}

type Odd15 interface {
	Odd15M0(ctx context.Context, a map[Key]int) (map[Key]int, error)
}

type Odd15Impl struct{}

func NewOdd15Impl(ctx context.Context) (*Odd15Impl, error) { return &Odd15Impl{}, nil }

func (s *Odd15Impl) Odd15M0(ctx context.Context, a map[Key]int) (map[Key]int, error) {
	saw(a)
	return a, nil
}

type Odd16 interface {
	Odd16M0(ctx context.Context, a [3]int) ([3]int, error)
}

type Odd16Impl struct{}

func NewOdd16Impl(ctx context.Context) (*Odd16Impl, error) { return &Odd16Impl{}, nil }

func (s *Odd16Impl) Odd16M0(ctx context.Context, a [3]int) ([3]int, error) { saw(a); return a, nil }

type Odd17 interface {
	Odd17M0(ctx context.Context, a any) (any, error)
}

type Odd17Impl struct{}

func NewOdd17Impl(ctx context.Context) (*Odd17Impl, error) { return &Odd17Impl{}, nil }

func (s *Odd17Impl) Odd17M0(ctx context.Context, a any) (any, error) { saw(a); return a, nil }

type Odd18 interface {
	Odd18M0(ctx context.Context, a interface{}) (interface{}, error)
}

type Odd18Impl struct{}

func NewOdd18Impl(ctx context.Context) (*Odd18Impl, error) { return &Odd18Impl{}, nil }

func (s *Odd18Impl) Odd18M0(ctx context.Context, a interface{}) (interface{}, error) {
	saw(a)
	return a, nil
}

type Odd19 interface {
	Odd19M0(ctx context.Context, a Enum) (Enum, error)
}

type Odd19Impl struct{}

func NewOdd19Impl(ctx context.Context) (*Odd19Impl, error) { return &Odd19Impl{}, nil }

func (s *Odd19Impl) Odd19M0(ctx context.Context, a Enum) (Enum, error) { saw(a); return a, nil }

type Odd20 interface {
	Odd20M0(ctx context.Context, a Names) (Names, error)
}

type Odd20Impl struct{}

func NewOdd20Impl(ctx context.Context) (*Odd20Impl, error) { return &Odd20Impl{}, nil }

func (s *Odd20Impl) Odd20M0(ctx context.Context, a Names) (Names, error) { saw(a); return a, nil }

type Odd21 interface {
	Odd21M0(ctx context.Context, a []Enum) ([]Enum, error)
}

type Odd21Impl struct{}

func NewOdd21Impl(ctx context.Context) (*Odd21Impl, error) { return &Odd21Impl{}, nil }

func (s *Odd21Impl) Odd21M0(ctx context.Context, a []Enum) ([]Enum, error) { saw(a); return a, nil }

type Odd22 interface {
	Odd22M0(ctx context.Context, a map[Enum]int) (map[Enum]int, error)
}

type Odd22Impl struct{}

func NewOdd22Impl(ctx context.Context) (*Odd22Impl, error) { return &Odd22Impl{}, nil }

func (s *Odd22Impl) Odd22M0(ctx context.Context, a map[Enum]int) (map[Enum]int, error) {
	saw(a)
	return a, nil
}

type Odd23 interface {
	Odd23M0(ctx context.Context, a Embeds) (Embeds, error)
}

type Odd23Impl struct{}

func NewOdd23Impl(ctx context.Context) (*Odd23Impl, error) { return &Odd23Impl{}, nil }

func (s *Odd23Impl) Odd23M0(ctx context.Context, a Embeds) (Embeds, error) { saw(a); return a, nil }

type Odd24 interface {
	Odd24M0(ctx context.Context, a Hidden) (Hidden, error)
}

type Odd24Impl struct{}

func NewOdd24Impl(ctx context.Context) (*Odd24Impl, error) { return &Odd24Impl{}, nil }

func (s *Odd24Impl) Odd24M0(ctx context.Context, a Hidden) (Hidden, error) { saw(a); return a, nil }

type Odd25 interface {
	Odd25M0(ctx context.Context, a HasIface) (HasIface, error)
}

type Odd25Impl struct{}

func NewOdd25Impl(ctx context.Context) (*Odd25Impl, error) { return &Odd25Impl{}, nil }

func (s *Odd25Impl) Odd25M0(ctx context.Context, a HasIface) (HasIface, error) { saw(a); return a, nil }

type Odd26 interface {
	Odd26M0(ctx context.Context, a HasChan) (HasChan, error)
}

type Odd26Impl struct{}

func NewOdd26Impl(ctx context.Context) (*Odd26Impl, error) { return &Odd26Impl{}, nil }

func (s *Odd26Impl) Odd26M0(ctx context.Context, a HasChan) (HasChan, error) { saw(a); return a, nil }

type Odd27 interface {
	Odd27M0(ctx context.Context, a HasTime) (HasTime, error)
}

type Odd27Impl struct{}

func NewOdd27Impl(ctx context.Context) (*Odd27Impl, error) { return &Odd27Impl{}, nil }

func (s *Odd27Impl) Odd27M0(ctx context.Context, a HasTime) (HasTime, error) { saw(a); return a, nil }

type Odd28 interface {
	Odd28M0(ctx context.Context, a HasErr) (HasErr, error)
}

type Odd28Impl struct{}

func NewOdd28Impl(ctx context.Context) (*Odd28Impl, error) { return &Odd28Impl{}, nil }

func (s *Odd28Impl) Odd28M0(ctx context.Context, a HasErr) (HasErr, error) { saw(a); return a, nil }

type Odd29 interface {
	Odd29M0(ctx context.Context, a Alias) (Alias, error)
}

type Odd29Impl struct{}

func NewOdd29Impl(ctx context.Context) (*Odd29Impl, error) { return &Odd29Impl{}, nil }

func (s *Odd29Impl) Odd29M0(ctx context.Context, a Alias) (Alias, error) { saw(a); return a, nil }

type Odd30 interface {
	Odd30M0(ctx context.Context, a other.Flat) (other.Flat, error)
}

type Odd30Impl struct{}

func NewOdd30Impl(ctx context.Context) (*Odd30Impl, error) { return &Odd30Impl{}, nil }

func (s *Odd30Impl) Odd30M0(ctx context.Context, a other.Flat) (other.Flat, error) {
	saw(a)
	return a, nil
}

type Odd31 interface {
	Odd31M0(ctx context.Context, a Both) (Both, error)
}

type Odd31Impl struct{}

func NewOdd31Impl(ctx context.Context) (*Odd31Impl, error) { return &Odd31Impl{}, nil }

func (s *Odd31Impl) Odd31M0(ctx context.Context, a Both) (Both, error) { saw(a); return a, nil }

type Odd32 interface {
	Odd32M0(ctx context.Context, a complex128) (complex128, error)
}

type Odd32Impl struct{}

func NewOdd32Impl(ctx context.Context) (*Odd32Impl, error) { return &Odd32Impl{}, nil }

func (s *Odd32Impl) Odd32M0(ctx context.Context, a complex128) (complex128, error) {
	saw(a)
	return a, nil
}

type Odd33 interface {
	Odd33M0(ctx context.Context, a []any) ([]any, error)
}

type Odd33Impl struct{}

func NewOdd33Impl(ctx context.Context) (*Odd33Impl, error) { return &Odd33Impl{}, nil }

func (s *Odd33Impl) Odd33M0(ctx context.Context, a []any) ([]any, error) { saw(a); return a, nil }

type Odd34 interface {
	Odd34M0(ctx context.Context, a map[string]any) (map[string]any, error)
}

type Odd34Impl struct{}

func NewOdd34Impl(ctx context.Context) (*Odd34Impl, error) { return &Odd34Impl{}, nil }

func (s *Odd34Impl) Odd34M0(ctx context.Context, a map[string]any) (map[string]any, error) {
	saw(a)
	return a, nil
}

type Odd35 interface {
	Odd35M0(ctx context.Context, a time.Duration) (time.Duration, error)
}

type Odd35Impl struct{}

func NewOdd35Impl(ctx context.Context) (*Odd35Impl, error) { return &Odd35Impl{}, nil }

func (s *Odd35Impl) Odd35M0(ctx context.Context, a time.Duration) (time.Duration, error) {
	saw(a)
	return a, nil
}

type Odd36 interface {
	Odd36M0(ctx context.Context, a HasArr) (HasArr, error)
}

type Odd36Impl struct{}

func NewOdd36Impl(ctx context.Context) (*Odd36Impl, error) { return &Odd36Impl{}, nil }

func (s *Odd36Impl) Odd36M0(ctx context.Context, a HasArr) (HasArr, error) { saw(a); return a, nil }

type Odd37 interface {
	Odd37M0(ctx context.Context, a HasGrid) (HasGrid, error)
}

type Odd37Impl struct{}

func NewOdd37Impl(ctx context.Context) (*Odd37Impl, error) { return &Odd37Impl{}, nil }

func (s *Odd37Impl) Odd37M0(ctx context.Context, a HasGrid) (HasGrid, error) { saw(a); return a, nil }

type Odd38 interface {
	Odd38M0(ctx context.Context, a HasMM) (HasMM, error)
}

type Odd38Impl struct{}

func NewOdd38Impl(ctx context.Context) (*Odd38Impl, error) { return &Odd38Impl{}, nil }

func (s *Odd38Impl) Odd38M0(ctx context.Context, a HasMM) (HasMM, error) { saw(a); return a, nil }

type Odd39 interface {
	Odd39M0(ctx context.Context, a HasPP) (HasPP, error)
}

type Odd39Impl struct{}

func NewOdd39Impl(ctx context.Context) (*Odd39Impl, error) { return &Odd39Impl{}, nil }

func (s *Odd39Impl) Odd39M0(ctx context.Context, a HasPP) (HasPP, error) { saw(a); return a, nil }

type Odd40 interface {
	Odd40M0(ctx context.Context, a HasSP) (HasSP, error)
}

type Odd40Impl struct{}

func NewOdd40Impl(ctx context.Context) (*Odd40Impl, error) { return &Odd40Impl{}, nil }

func (s *Odd40Impl) Odd40M0(ctx context.Context, a HasSP) (HasSP, error) { saw(a); return a, nil }

type Odd41 interface {
	Odd41M0(ctx context.Context, a HasMP) (HasMP, error)
}

type Odd41Impl struct{}

func NewOdd41Impl(ctx context.Context) (*Odd41Impl, error) { return &Odd41Impl{}, nil }

func (s *Odd41Impl) Odd41M0(ctx context.Context, a HasMP) (HasMP, error) { saw(a); return a, nil }

type Odd42 interface {
	Odd42M0(ctx context.Context, a Multi) (Multi, error)
}

type Odd42Impl struct{}

func NewOdd42Impl(ctx context.Context) (*Odd42Impl, error) { return &Odd42Impl{}, nil }

func (s *Odd42Impl) Odd42M0(ctx context.Context, a Multi) (Multi, error) { saw(a); return a, nil }

type Odd43 interface {
	Odd43M0(ctx context.Context, a Ring) (Ring, error)
}

type Odd43Impl struct{}

func NewOdd43Impl(ctx context.Context) (*Odd43Impl, error) { return &Odd43Impl{}, nil }

func (s *Odd43Impl) Odd43M0(ctx context.Context, a Ring) (Ring, error) { saw(a); return a, nil }

type Odd44 interface {
	Odd44M0(ctx context.Context, a Gen[int]) (Gen[int], error)
}

type Odd44Impl struct{}

func NewOdd44Impl(ctx context.Context) (*Odd44Impl, error) { return &Odd44Impl{}, nil }

func (s *Odd44Impl) Odd44M0(ctx context.Context, a Gen[int]) (Gen[int], error) { saw(a); return a, nil }

type Odd45 interface {
	Odd45M0(ctx context.Context, a HasGen) (HasGen, error)
}

type Odd45Impl struct{}

func NewOdd45Impl(ctx context.Context) (*Odd45Impl, error) { return &Odd45Impl{}, nil }

func (s *Odd45Impl) Odd45M0(ctx context.Context, a HasGen) (HasGen, error) { saw(a); return a, nil }

type Odd46 interface {
	Odd46M0(ctx context.Context, a Tagged) (Tagged, error)
}

type Odd46Impl struct{}

func NewOdd46Impl(ctx context.Context) (*Odd46Impl, error) { return &Odd46Impl{}, nil }

func (s *Odd46Impl) Odd46M0(ctx context.Context, a Tagged) (Tagged, error) { saw(a); return a, nil }

type Odd47 interface {
	Odd47M0(ctx context.Context, a Outer) (Outer, error)
}

type Odd47Impl struct{}

func NewOdd47Impl(ctx context.Context) (*Odd47Impl, error) { return &Odd47Impl{}, nil }

func (s *Odd47Impl) Odd47M0(ctx context.Context, a Outer) (Outer, error) { saw(a); return a, nil }

type Odd48 interface {
	Odd48M0(ctx context.Context, a struct{ A int }) (struct{ A int }, error)
}

type Odd48Impl struct{}

func NewOdd48Impl(ctx context.Context) (*Odd48Impl, error) { return &Odd48Impl{}, nil }

func (s *Odd48Impl) Odd48M0(ctx context.Context, a struct{ A int }) (struct{ A int }, error) {
	saw(a)
	return a, nil
}

type Odd49 interface {
	Odd49M0(ctx context.Context, a []byte) ([]byte, error)
}

type Odd49Impl struct{}

func NewOdd49Impl(ctx context.Context) (*Odd49Impl, error) { return &Odd49Impl{}, nil }

func (s *Odd49Impl) Odd49M0(ctx context.Context, a []byte) ([]byte, error) { saw(a); return a, nil }

type Odd50 interface {
	Odd50M0(ctx context.Context, a *[]int) (*[]int, error)
}

type Odd50Impl struct{}

func NewOdd50Impl(ctx context.Context) (*Odd50Impl, error) { return &Odd50Impl{}, nil }

func (s *Odd50Impl) Odd50M0(ctx context.Context, a *[]int) (*[]int, error) { saw(a); return a, nil }

type Odd51 interface {
	Odd51M0(ctx context.Context, a *map[string]int) (*map[string]int, error)
}

type Odd51Impl struct{}

func NewOdd51Impl(ctx context.Context) (*Odd51Impl, error) { return &Odd51Impl{}, nil }

func (s *Odd51Impl) Odd51M0(ctx context.Context, a *map[string]int) (*map[string]int, error) {
	saw(a)
	return a, nil
}

type Odd52 interface {
	Odd52M0(ctx context.Context, a HasPS) (HasPS, error)
}

type Odd52Impl struct{}

func NewOdd52Impl(ctx context.Context) (*Odd52Impl, error) { return &Odd52Impl{}, nil }

func (s *Odd52Impl) Odd52M0(ctx context.Context, a HasPS) (HasPS, error) { saw(a); return a, nil }

type Odd53 interface {
	Odd53M0(ctx context.Context, a HasAnon) (HasAnon, error)
}

type Odd53Impl struct{}

func NewOdd53Impl(ctx context.Context) (*Odd53Impl, error) { return &Odd53Impl{}, nil }

func (s *Odd53Impl) Odd53M0(ctx context.Context, a HasAnon) (HasAnon, error) { saw(a); return a, nil }

type Odd54 interface {
	Odd54M0(ctx context.Context, a map[string][]byte) (map[string][]byte, error)
}

type Odd54Impl struct{}

func NewOdd54Impl(ctx context.Context) (*Odd54Impl, error) { return &Odd54Impl{}, nil }

func (s *Odd54Impl) Odd54M0(ctx context.Context, a map[string][]byte) (map[string][]byte, error) {
	saw(a)
	return a, nil
}

type Odd55 interface {
	Odd55M0(ctx context.Context, a [][]byte) ([][]byte, error)
}

type Odd55Impl struct{}

func NewOdd55Impl(ctx context.Context) (*Odd55Impl, error) { return &Odd55Impl{}, nil }

func (s *Odd55Impl) Odd55M0(ctx context.Context, a [][]byte) ([][]byte, error) { saw(a); return a, nil }

type Odd56 interface {
	Odd56M0(ctx context.Context, a Blob) (Blob, error)
}

type Odd56Impl struct{}

func NewOdd56Impl(ctx context.Context) (*Odd56Impl, error) { return &Odd56Impl{}, nil }

func (s *Odd56Impl) Odd56M0(ctx context.Context, a Blob) (Blob, error) { saw(a); return a, nil }

type Odd57 interface {
	Odd57M0(ctx context.Context, a HasReset) (HasReset, error)
}

type Odd57Impl struct{}

func NewOdd57Impl(ctx context.Context) (*Odd57Impl, error) { return &Odd57Impl{}, nil }

func (s *Odd57Impl) Odd57M0(ctx context.Context, a HasReset) (HasReset, error) { saw(a); return a, nil }

type Many interface {
	None(ctx context.Context) error
	Args(ctx context.Context, a int, b string, c []int, d map[string]bool, e Flat, f *Flat) error
	Rets(ctx context.Context) (int, string, []string, map[string]int64, Flat, *Flat, error)
	Same(ctx context.Context, a, b int, c string) (int, int, string, error)
}

type ManyImpl struct{}

// Reply is what Rets returns.
var Reply struct {
	A int
	B string
	C []string
	D map[string]int64
	E Flat
	F *Flat
}

func NewManyImpl(ctx context.Context) (*ManyImpl, error) { return &ManyImpl{}, nil }

func (s *ManyImpl) None(ctx context.Context) error { saw("none"); return nil }

func (s *ManyImpl) Args(ctx context.Context, a int, b string, c []int, d map[string]bool, e Flat, f *Flat) error {
	saw([]any{a, b, c, d, e, f})
	return nil
}

func (s *ManyImpl) Rets(ctx context.Context) (int, string, []string, map[string]int64, Flat, *Flat, error) {
	return Reply.A, Reply.B, Reply.C, Reply.D, Reply.E, Reply.F, nil
}

func (s *ManyImpl) Same(ctx context.Context, a, b int, c string) (int, int, string, error) {
	saw([]any{a, b, c})
	return b, a, c + c, nil
}

type Name00 interface {
	Do00(ctx context.Context, a int, client int) (int, error)
}

type Name00Impl struct{}

func NewName00Impl(ctx context.Context) (*Name00Impl, error) { return &Name00Impl{}, nil }

func (x *Name00Impl) Do00(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name01 interface {
	Do01(ctx context.Context, a int, req string) (string, error)
}

type Name01Impl struct{}

func NewName01Impl(ctx context.Context) (*Name01Impl, error) { return &Name01Impl{}, nil }

func (x *Name01Impl) Do01(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name02 interface {
	Do02(ctx context.Context, a int, rsp int) (int, error)
}

type Name02Impl struct{}

func NewName02Impl(ctx context.Context) (*Name02Impl, error) { return &Name02Impl{}, nil }

func (x *Name02Impl) Do02(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name03 interface {
	Do03(ctx context.Context, a int, handler string) (string, error)
}

type Name03Impl struct{}

func NewName03Impl(ctx context.Context) (*Name03Impl, error) { return &Name03Impl{}, nil }

func (x *Name03Impl) Do03(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name04 interface {
	Do04(ctx context.Context, a int, err int) (int, error)
}

type Name04Impl struct{}

func NewName04Impl(ctx context.Context) (*Name04Impl, error) { return &Name04Impl{}, nil }

func (x *Name04Impl) Do04(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name05 interface {
	Do05(ctx context.Context, a int, msg string) (string, error)
}

type Name05Impl struct{}

func NewName05Impl(ctx context.Context) (*Name05Impl, error) { return &Name05Impl{}, nil }

func (x *Name05Impl) Do05(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name06 interface {
	Do06(ctx context.Context, a int, cancel int) (int, error)
}

type Name06Impl struct{}

func NewName06Impl(ctx context.Context) (*Name06Impl, error) { return &Name06Impl{}, nil }

func (x *Name06Impl) Do06(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name07 interface {
	Do07(ctx context.Context, a int, ret0 string) (string, error)
}

type Name07Impl struct{}

func NewName07Impl(ctx context.Context) (*Name07Impl, error) { return &Name07Impl{}, nil }

func (x *Name07Impl) Do07(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name08 interface {
	Do08(ctx context.Context, a int, vals int) (int, error)
}

type Name08Impl struct{}

func NewName08Impl(ctx context.Context) (*Name08Impl, error) { return &Name08Impl{}, nil }

func (x *Name08Impl) Do08(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name09 interface {
	Do09(ctx context.Context, a int, resp string) (string, error)
}

type Name09Impl struct{}

func NewName09Impl(ctx context.Context) (*Name09Impl, error) { return &Name09Impl{}, nil }

func (x *Name09Impl) Do09(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name10 interface {
	Do10(ctx context.Context, a int, response int) (int, error)
}

type Name10Impl struct{}

func NewName10Impl(ctx context.Context) (*Name10Impl, error) { return &Name10Impl{}, nil }

func (x *Name10Impl) Do10(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name11 interface {
	Do11(ctx context.Context, a int, url string) (string, error)
}

type Name11Impl struct{}

func NewName11Impl(ctx context.Context) (*Name11Impl, error) { return &Name11Impl{}, nil }

func (x *Name11Impl) Do11(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name12 interface {
	Do12(ctx context.Context, a int, json int) (int, error)
}

type Name12Impl struct{}

func NewName12Impl(ctx context.Context) (*Name12Impl, error) { return &Name12Impl{}, nil }

func (x *Name12Impl) Do12(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name13 interface {
	Do13(ctx context.Context, a int, w string) (string, error)
}

type Name13Impl struct{}

func NewName13Impl(ctx context.Context) (*Name13Impl, error) { return &Name13Impl{}, nil }

func (x *Name13Impl) Do13(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name14 interface {
	Do14(ctx context.Context, a int, r int) (int, error)
}

type Name14Impl struct{}

func NewName14Impl(ctx context.Context) (*Name14Impl, error) { return &Name14Impl{}, nil }

func (x *Name14Impl) Do14(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name15 interface {
	Do15(ctx context.Context, a int, user_id string) (string, error)
}

type Name15Impl struct{}

func NewName15Impl(ctx context.Context) (*Name15Impl, error) { return &Name15Impl{}, nil }

func (x *Name15Impl) Do15(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name16 interface {
	Do16(ctx context.Context, a int, userID int) (int, error)
}

type Name16Impl struct{}

func NewName16Impl(ctx context.Context) (*Name16Impl, error) { return &Name16Impl{}, nil }

func (x *Name16Impl) Do16(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name17 interface {
	Do17(ctx context.Context, a int, ID string) (string, error)
}

type Name17Impl struct{}

func NewName17Impl(ctx context.Context) (*Name17Impl, error) { return &Name17Impl{}, nil }

func (x *Name17Impl) Do17(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name18 interface {
	Do18(ctx context.Context, a int, id int) (int, error)
}

type Name18Impl struct{}

func NewName18Impl(ctx context.Context) (*Name18Impl, error) { return &Name18Impl{}, nil }

func (x *Name18Impl) Do18(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name19 interface {
	Do19(ctx context.Context, a int, c string) (string, error)
}

type Name19Impl struct{}

func NewName19Impl(ctx context.Context) (*Name19Impl, error) { return &Name19Impl{}, nil }

func (x *Name19Impl) Do19(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name20 interface {
	Do20(ctx context.Context, a int, s int) (int, error)
}

type Name20Impl struct{}

func NewName20Impl(ctx context.Context) (*Name20Impl, error) { return &Name20Impl{}, nil }

func (x *Name20Impl) Do20(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name21 interface {
	Do21(ctx context.Context, a int, obj string) (string, error)
}

type Name21Impl struct{}

func NewName21Impl(ctx context.Context) (*Name21Impl, error) { return &Name21Impl{}, nil }

func (x *Name21Impl) Do21(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name22 interface {
	Do22(ctx context.Context, a int, string_ int) (int, error)
}

type Name22Impl struct{}

func NewName22Impl(ctx context.Context) (*Name22Impl, error) { return &Name22Impl{}, nil }

func (x *Name22Impl) Do22(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name23 interface {
	Do23(ctx context.Context, a int, x_1 string) (string, error)
}

type Name23Impl struct{}

func NewName23Impl(ctx context.Context) (*Name23Impl, error) { return &Name23Impl{}, nil }

func (x *Name23Impl) Do23(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name24 interface {
	Do24(ctx context.Context, a int, k int) (int, error)
}

type Name24Impl struct{}

func NewName24Impl(ctx context.Context) (*Name24Impl, error) { return &Name24Impl{}, nil }

func (x *Name24Impl) Do24(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name25 interface {
	Do25(ctx context.Context, a int, v string) (string, error)
}

type Name25Impl struct{}

func NewName25Impl(ctx context.Context) (*Name25Impl, error) { return &Name25Impl{}, nil }

func (x *Name25Impl) Do25(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name26 interface {
	Do26(ctx context.Context, a int, i int) (int, error)
}

type Name26Impl struct{}

func NewName26Impl(ctx context.Context) (*Name26Impl, error) { return &Name26Impl{}, nil }

func (x *Name26Impl) Do26(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name27 interface {
	Do27(ctx context.Context, a int, encoded_url string) (string, error)
}

type Name27Impl struct{}

func NewName27Impl(ctx context.Context) (*Name27Impl, error) { return &Name27Impl{}, nil }

func (x *Name27Impl) Do27(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name28 interface {
	Do28(ctx context.Context, a int, bytes_a int) (int, error)
}

type Name28Impl struct{}

func NewName28Impl(ctx context.Context) (*Name28Impl, error) { return &Name28Impl{}, nil }

func (x *Name28Impl) Do28(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name29 interface {
	Do29(ctx context.Context, a int, errors string) (string, error)
}

type Name29Impl struct{}

func NewName29Impl(ctx context.Context) (*Name29Impl, error) { return &Name29Impl{}, nil }

func (x *Name29Impl) Do29(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name30 interface {
	Do30(ctx context.Context, a int, time int) (int, error)
}

type Name30Impl struct{}

func NewName30Impl(ctx context.Context) (*Name30Impl, error) { return &Name30Impl{}, nil }

func (x *Name30Impl) Do30(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name31 interface {
	Do31(ctx context.Context, a int, context string) (string, error)
}

type Name31Impl struct{}

func NewName31Impl(ctx context.Context) (*Name31Impl, error) { return &Name31Impl{}, nil }

func (x *Name31Impl) Do31(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name32 interface {
	Do32(ctx context.Context, a int, fmt int) (int, error)
}

type Name32Impl struct{}

func NewName32Impl(ctx context.Context) (*Name32Impl, error) { return &Name32Impl{}, nil }

func (x *Name32Impl) Do32(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name33 interface {
	Do33(ctx context.Context, a int, io string) (string, error)
}

type Name33Impl struct{}

func NewName33Impl(ctx context.Context) (*Name33Impl, error) { return &Name33Impl{}, nil }

func (x *Name33Impl) Do33(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name34 interface {
	Do34(ctx context.Context, a int, http int) (int, error)
}

type Name34Impl struct{}

func NewName34Impl(ctx context.Context) (*Name34Impl, error) { return &Name34Impl{}, nil }

func (x *Name34Impl) Do34(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name35 interface {
	Do35(ctx context.Context, a int, grpc string) (string, error)
}

type Name35Impl struct{}

func NewName35Impl(ctx context.Context) (*Name35Impl, error) { return &Name35Impl{}, nil }

func (x *Name35Impl) Do35(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name36 interface {
	Do36(ctx context.Context, a int, insecure int) (int, error)
}

type Name36Impl struct{}

func NewName36Impl(ctx context.Context) (*Name36Impl, error) { return &Name36Impl{}, nil }

func (x *Name36Impl) Do36(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name37 interface {
	Do37(ctx context.Context, a int, mux string) (string, error)
}

type Name37Impl struct{}

func NewName37Impl(ctx context.Context) (*Name37Impl, error) { return &Name37Impl{}, nil }

func (x *Name37Impl) Do37(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name38 interface {
	Do38(ctx context.Context, a int, reset int) (int, error)
}

type Name38Impl struct{}

func NewName38Impl(ctx context.Context) (*Name38Impl, error) { return &Name38Impl{}, nil }

func (x *Name38Impl) Do38(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name39 interface {
	Do39(ctx context.Context, a int, String string) (string, error)
}

type Name39Impl struct{}

func NewName39Impl(ctx context.Context) (*Name39Impl, error) { return &Name39Impl{}, nil }

func (x *Name39Impl) Do39(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name40 interface {
	Do40(ctx context.Context, a int, typ int) (int, error)
}

type Name40Impl struct{}

func NewName40Impl(ctx context.Context) (*Name40Impl, error) { return &Name40Impl{}, nil }

func (x *Name40Impl) Do40(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name41 interface {
	Do41(ctx context.Context, a int, message string) (string, error)
}

type Name41Impl struct{}

func NewName41Impl(ctx context.Context) (*Name41Impl, error) { return &Name41Impl{}, nil }

func (x *Name41Impl) Do41(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name42 interface {
	Do42(ctx context.Context, a int, service int) (int, error)
}

type Name42Impl struct{}

func NewName42Impl(ctx context.Context) (*Name42Impl, error) { return &Name42Impl{}, nil }

func (x *Name42Impl) Do42(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name43 interface {
	Do43(ctx context.Context, a int, rpc string) (string, error)
}

type Name43Impl struct{}

func NewName43Impl(ctx context.Context) (*Name43Impl, error) { return &Name43Impl{}, nil }

func (x *Name43Impl) Do43(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}

type Name44 interface {
	Do44(ctx context.Context, a int, option int) (int, error)
}

type Name44Impl struct{}

func NewName44Impl(ctx context.Context) (*Name44Impl, error) { return &Name44Impl{}, nil }

func (x *Name44Impl) Do44(ctx context.Context, a int, y int) (int, error) { saw(y); return y, nil }

type Name45 interface {
	Do45(ctx context.Context, a int, _x string) (string, error)
}

type Name45Impl struct{}

func NewName45Impl(ctx context.Context) (*Name45Impl, error) { return &Name45Impl{}, nil }

func (x *Name45Impl) Do45(ctx context.Context, a int, y string) (string, error) {
	saw(y)
	return y, nil
}
