package main

import (
	"fmt"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// logReader logs the calls that succeed, and what they return.
type logReader struct {
	thriftwire.Reader
	log []string
}

func (r *logReader) ok(err error, op string, vs ...any) {
	if err == nil {
		r.log = append(r.log, op+fmt.Sprint(vs...))
	}
}

func (r *logReader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	h, err = r.Reader.ReadMessageBegin()
	r.ok(err, "MessageBegin", fmt.Sprintf("%q %d %d", h.Name, h.Type, h.ID))
	return
}
func (r *logReader) ReadMessageEnd() error {
	err := r.Reader.ReadMessageEnd()
	r.ok(err, "MessageEnd")
	return err
}
func (r *logReader) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	h, err = r.Reader.ReadStructBegin()
	r.ok(err, "StructBegin")
	return
}
func (r *logReader) ReadStructEnd() error {
	err := r.Reader.ReadStructEnd()
	r.ok(err, "StructEnd")
	return err
}
func (r *logReader) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	h, err = r.Reader.ReadFieldBegin()
	r.ok(err, "FieldBegin", byte(h.Type), " ", h.ID)
	return
}
func (r *logReader) ReadFieldEnd() error {
	err := r.Reader.ReadFieldEnd()
	r.ok(err, "FieldEnd")
	return err
}
func (r *logReader) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	h, err = r.Reader.ReadMapBegin()
	r.ok(err, "MapBegin", byte(h.Key), " ", byte(h.Value), " ", h.Size)
	return
}
func (r *logReader) ReadMapEnd() error {
	err := r.Reader.ReadMapEnd()
	r.ok(err, "MapEnd")
	return err
}
func (r *logReader) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	h, err = r.Reader.ReadSetBegin()
	r.ok(err, "SetBegin", byte(h.Element), " ", h.Size)
	return
}
func (r *logReader) ReadSetEnd() error {
	err := r.Reader.ReadSetEnd()
	r.ok(err, "SetEnd")
	return err
}
func (r *logReader) ReadListBegin() (h thriftwire.ListHeader, err error) {
	h, err = r.Reader.ReadListBegin()
	r.ok(err, "ListBegin", byte(h.Element), " ", h.Size)
	return
}
func (r *logReader) ReadListEnd() error {
	err := r.Reader.ReadListEnd()
	r.ok(err, "ListEnd")
	return err
}
func (r *logReader) ReadBool() (v bool, err error) {
	v, err = r.Reader.ReadBool()
	r.ok(err, "Bool", v)
	return
}
func (r *logReader) ReadByte() (v byte, err error) {
	v, err = r.Reader.ReadByte()
	r.ok(err, "Byte", v)
	return
}
func (r *logReader) ReadDouble() (v float64, err error) {
	v, err = r.Reader.ReadDouble()
	r.ok(err, "Double", math.Float64bits(v))
	return
}
func (r *logReader) ReadI16() (v int16, err error) {
	v, err = r.Reader.ReadI16()
	r.ok(err, "I16", v)
	return
}
func (r *logReader) ReadI32() (v int32, err error) {
	v, err = r.Reader.ReadI32()
	r.ok(err, "I32", v)
	return
}
func (r *logReader) ReadI64() (v int64, err error) {
	v, err = r.Reader.ReadI64()
	r.ok(err, "I64", v)
	return
}
func (r *logReader) ReadString() (v string, err error) {
	v, err = r.Reader.ReadString()
	r.ok(err, "String", v)
	return
}
func (r *logReader) ReadBytes(buf []byte) ([]byte, error) {
	v, err := r.Reader.ReadBytes(buf)
	if err == nil {
		r.ok(err, "Bytes", string(v))
	}
	return v, err
}
func (r *logReader) ReadUUID(p *[16]byte) error {
	err := r.Reader.ReadUUID(p)
	r.ok(err, "UUID", string(p[:]))
	return err
}
func (r *logReader) SkipString() error {
	err := r.Reader.SkipString()
	r.ok(err, "SkipString")
	return err
}
func (r *logReader) SkipUUID() error {
	err := r.Reader.SkipUUID()
	r.ok(err, "SkipUUID")
	return err
}
