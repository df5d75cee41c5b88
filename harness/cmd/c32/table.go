package main

import "github.com/NVIDIA/vdisc/pkg/safecast"

// conversion takes and gives values as 64 bits, signed ones extended.
type conversion struct {
	name     string
	from     uint
	fromSign bool
	to       uint
	toSign   bool
	do       func(b uint64) uint64
}

var conversions = []conversion{
	{"Int8ToUint", 8, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int8ToUint(int8(b))) }},
	{"Int8ToUint8", 8, true, 8, false, func(b uint64) uint64 { return uint64(safecast.Int8ToUint8(int8(b))) }},
	{"Int8ToUint16", 8, true, 16, false, func(b uint64) uint64 { return uint64(safecast.Int8ToUint16(int8(b))) }},
	{"Int8ToUint32", 8, true, 32, false, func(b uint64) uint64 { return uint64(safecast.Int8ToUint32(int8(b))) }},
	{"Int8ToUint64", 8, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int8ToUint64(int8(b))) }},
	{"Int16ToInt8", 16, true, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Int16ToInt8(int16(b)))) }},
	{"Int16ToUint", 16, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int16ToUint(int16(b))) }},
	{"Int16ToUint8", 16, true, 8, false, func(b uint64) uint64 { return uint64(safecast.Int16ToUint8(int16(b))) }},
	{"Int16ToUint16", 16, true, 16, false, func(b uint64) uint64 { return uint64(safecast.Int16ToUint16(int16(b))) }},
	{"Int16ToUint32", 16, true, 32, false, func(b uint64) uint64 { return uint64(safecast.Int16ToUint32(int16(b))) }},
	{"Int16ToUint64", 16, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int16ToUint64(int16(b))) }},
	{"Int32ToInt8", 32, true, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Int32ToInt8(int32(b)))) }},
	{"Int32ToInt16", 32, true, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.Int32ToInt16(int32(b)))) }},
	{"Int32ToUint", 32, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int32ToUint(int32(b))) }},
	{"Int32ToUint8", 32, true, 8, false, func(b uint64) uint64 { return uint64(safecast.Int32ToUint8(int32(b))) }},
	{"Int32ToUint16", 32, true, 16, false, func(b uint64) uint64 { return uint64(safecast.Int32ToUint16(int32(b))) }},
	{"Int32ToUint32", 32, true, 32, false, func(b uint64) uint64 { return uint64(safecast.Int32ToUint32(int32(b))) }},
	{"Int32ToUint64", 32, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int32ToUint64(int32(b))) }},
	{"Int64ToInt", 64, true, 64, true, func(b uint64) uint64 { return uint64(int64(safecast.Int64ToInt(int64(b)))) }},
	{"Int64ToInt8", 64, true, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Int64ToInt8(int64(b)))) }},
	{"Int64ToInt16", 64, true, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.Int64ToInt16(int64(b)))) }},
	{"Int64ToInt32", 64, true, 32, true, func(b uint64) uint64 { return uint64(int64(safecast.Int64ToInt32(int64(b)))) }},
	{"Int64ToUint", 64, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int64ToUint(int64(b))) }},
	{"Int64ToUint8", 64, true, 8, false, func(b uint64) uint64 { return uint64(safecast.Int64ToUint8(int64(b))) }},
	{"Int64ToUint16", 64, true, 16, false, func(b uint64) uint64 { return uint64(safecast.Int64ToUint16(int64(b))) }},
	{"Int64ToUint32", 64, true, 32, false, func(b uint64) uint64 { return uint64(safecast.Int64ToUint32(int64(b))) }},
	{"Int64ToUint64", 64, true, 64, false, func(b uint64) uint64 { return uint64(safecast.Int64ToUint64(int64(b))) }},
	{"IntToInt8", 64, true, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.IntToInt8(int(b)))) }},
	{"IntToInt16", 64, true, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.IntToInt16(int(b)))) }},
	{"IntToInt32", 64, true, 32, true, func(b uint64) uint64 { return uint64(int64(safecast.IntToInt32(int(b)))) }},
	{"IntToUint8", 64, true, 8, false, func(b uint64) uint64 { return uint64(safecast.IntToUint8(int(b))) }},
	{"IntToUint16", 64, true, 16, false, func(b uint64) uint64 { return uint64(safecast.IntToUint16(int(b))) }},
	{"IntToUint32", 64, true, 32, false, func(b uint64) uint64 { return uint64(safecast.IntToUint32(int(b))) }},
	{"IntToUint64", 64, true, 64, false, func(b uint64) uint64 { return uint64(safecast.IntToUint64(int(b))) }},
	{"Uint8ToInt8", 8, false, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint8ToInt8(uint8(b)))) }},
	{"Uint16ToInt8", 16, false, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint16ToInt8(uint16(b)))) }},
	{"Uint16ToInt16", 16, false, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint16ToInt16(uint16(b)))) }},
	{"Uint16ToUint8", 16, false, 8, false, func(b uint64) uint64 { return uint64(safecast.Uint16ToUint8(uint16(b))) }},
	{"Uint32ToInt", 32, false, 64, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint32ToInt(uint32(b)))) }},
	{"Uint32ToInt8", 32, false, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint32ToInt8(uint32(b)))) }},
	{"Uint32ToInt16", 32, false, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint32ToInt16(uint32(b)))) }},
	{"Uint32ToInt32", 32, false, 32, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint32ToInt32(uint32(b)))) }},
	{"Uint32ToUint8", 32, false, 8, false, func(b uint64) uint64 { return uint64(safecast.Uint32ToUint8(uint32(b))) }},
	{"Uint32ToUint16", 32, false, 16, false, func(b uint64) uint64 { return uint64(safecast.Uint32ToUint16(uint32(b))) }},
	{"Uint64ToInt", 64, false, 64, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint64ToInt(uint64(b)))) }},
	{"Uint64ToInt8", 64, false, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint64ToInt8(uint64(b)))) }},
	{"Uint64ToInt16", 64, false, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint64ToInt16(uint64(b)))) }},
	{"Uint64ToInt32", 64, false, 32, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint64ToInt32(uint64(b)))) }},
	{"Uint64ToInt64", 64, false, 64, true, func(b uint64) uint64 { return uint64(int64(safecast.Uint64ToInt64(uint64(b)))) }},
	{"Uint64ToUint", 64, false, 64, false, func(b uint64) uint64 { return uint64(safecast.Uint64ToUint(uint64(b))) }},
	{"Uint64ToUint8", 64, false, 8, false, func(b uint64) uint64 { return uint64(safecast.Uint64ToUint8(uint64(b))) }},
	{"Uint64ToUint16", 64, false, 16, false, func(b uint64) uint64 { return uint64(safecast.Uint64ToUint16(uint64(b))) }},
	{"Uint64ToUint32", 64, false, 32, false, func(b uint64) uint64 { return uint64(safecast.Uint64ToUint32(uint64(b))) }},
	{"UintToInt8", 64, false, 8, true, func(b uint64) uint64 { return uint64(int64(safecast.UintToInt8(uint(b)))) }},
	{"UintToInt16", 64, false, 16, true, func(b uint64) uint64 { return uint64(int64(safecast.UintToInt16(uint(b)))) }},
	{"UintToInt32", 64, false, 32, true, func(b uint64) uint64 { return uint64(int64(safecast.UintToInt32(uint(b)))) }},
	{"UintToInt64", 64, false, 64, true, func(b uint64) uint64 { return uint64(int64(safecast.UintToInt64(uint(b)))) }},
	{"UintToUint8", 64, false, 8, false, func(b uint64) uint64 { return uint64(safecast.UintToUint8(uint(b))) }},
	{"UintToUint16", 64, false, 16, false, func(b uint64) uint64 { return uint64(safecast.UintToUint16(uint(b))) }},
	{"UintToUint32", 64, false, 32, false, func(b uint64) uint64 { return uint64(safecast.UintToUint32(uint(b))) }},
}
