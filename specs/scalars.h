// The element types of fern, as lists of types for the drivers that treat every type combination.
#pragma once
#include "fv.h"
#define FV_UINTS(X, ...) X(uint8_t, __VA_ARGS__) X(uint16_t, __VA_ARGS__) X(uint32_t, __VA_ARGS__) X(uint64_t, __VA_ARGS__)
#define FV_SINTS(X, ...) X(int8_t, __VA_ARGS__) X(int16_t, __VA_ARGS__) X(int32_t, __VA_ARGS__) X(int64_t, __VA_ARGS__)
#define FV_FLOATS(X, ...) X(float, __VA_ARGS__) X(double, __VA_ARGS__)
// a second copy, so that one list can be nested inside another
#define FV_UINTS2(X, ...) X(uint8_t, __VA_ARGS__) X(uint16_t, __VA_ARGS__) X(uint32_t, __VA_ARGS__) X(uint64_t, __VA_ARGS__)
#define FV_SINTS2(X, ...) X(int8_t, __VA_ARGS__) X(int16_t, __VA_ARGS__) X(int32_t, __VA_ARGS__) X(int64_t, __VA_ARGS__)
#define FV_FLOATS2(X, ...) X(float, __VA_ARGS__) X(double, __VA_ARGS__)
// names usable inside identifiers
using t_u8 = uint8_t; using t_u16 = uint16_t; using t_u32 = uint32_t; using t_u64 = uint64_t;
using t_i8 = int8_t; using t_i16 = int16_t; using t_i32 = int32_t; using t_i64 = int64_t; using t_f32 = float; using t_f64 = double;
