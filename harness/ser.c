/* Serializer.  No bounds: every value of every width, every 8 byte (and destination) content. */
#include "vh.h"
#include "serializer/serializer.h"
static uint8_t buf[16], buf0[16];
static void fresh(void) { for (int i = 0; i < 16; i++) buf[i] = buf0[i] = in_u8(); }
static void untouched(int from, int n) { for (int i = 0; i < 16; i++) if (i < from || i >= from + n) CHECK(buf[i] == buf0[i], "no other byte is written"); }
static void same(void) { for (int i = 0; i < 16; i++) CHECK(buf[i] == buf0[i], "reading writes nothing"); }

static void w8(void) {
    fresh();
    uint8_t v = in_u8(), u = in_u8();
    CHECK(serialize_uint8(buf + 4, v) == 1, "the width is returned");
    for (int i = 0; i < 1; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (i))), "the bytes of the value are written in the named order");
    untouched(4, 1);
    CHECK(deserialize_uint8(&u, buf + 4) == 1 && u == v, "deserializing returns the value and the width");
    int8_t s = (int8_t)in_u8();
    CHECK(deserialize_int8(&s, buf + 4) == 1 && s == (int8_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint8_t want = 0;
    for (int i = 0; i < 1; i++) want |= (uint8_t)((uint64_t)buf[4 + i] << (8 * (i)));
    struct { uint8_t a; uint8_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint8(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int8_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int8(&t.v, buf + 4);
    CHECK(t.v == (int8_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}

static void w16_le(void) {
    fresh();
    uint16_t v = in_u16(), u = in_u16();
    CHECK(serialize_uint16_le(buf + 4, v) == 2, "the width is returned");
    for (int i = 0; i < 2; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (i))), "the bytes of the value are written in the named order");
    untouched(4, 2);
    CHECK(deserialize_uint16_le(&u, buf + 4) == 2 && u == v, "deserializing returns the value and the width");
    int16_t s = (int16_t)in_u16();
    CHECK(deserialize_int16_le(&s, buf + 4) == 2 && s == (int16_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint16_t want = 0;
    for (int i = 0; i < 2; i++) want |= (uint16_t)((uint64_t)buf[4 + i] << (8 * (i)));
    struct { uint8_t a; uint16_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint16_le(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int16_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int16_le(&t.v, buf + 4);
    CHECK(t.v == (int16_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}

static void w16_be(void) {
    fresh();
    uint16_t v = in_u16(), u = in_u16();
    CHECK(serialize_uint16_be(buf + 4, v) == 2, "the width is returned");
    for (int i = 0; i < 2; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (1 - i))), "the bytes of the value are written in the named order");
    untouched(4, 2);
    CHECK(deserialize_uint16_be(&u, buf + 4) == 2 && u == v, "deserializing returns the value and the width");
    int16_t s = (int16_t)in_u16();
    CHECK(deserialize_int16_be(&s, buf + 4) == 2 && s == (int16_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint16_t want = 0;
    for (int i = 0; i < 2; i++) want |= (uint16_t)((uint64_t)buf[4 + i] << (8 * (1 - i)));
    struct { uint8_t a; uint16_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint16_be(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int16_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int16_be(&t.v, buf + 4);
    CHECK(t.v == (int16_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}

static void w32_le(void) {
    fresh();
    uint32_t v = in_u32(), u = in_u32();
    CHECK(serialize_uint32_le(buf + 4, v) == 4, "the width is returned");
    for (int i = 0; i < 4; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (i))), "the bytes of the value are written in the named order");
    untouched(4, 4);
    CHECK(deserialize_uint32_le(&u, buf + 4) == 4 && u == v, "deserializing returns the value and the width");
    int32_t s = (int32_t)in_u32();
    CHECK(deserialize_int32_le(&s, buf + 4) == 4 && s == (int32_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint32_t want = 0;
    for (int i = 0; i < 4; i++) want |= (uint32_t)((uint64_t)buf[4 + i] << (8 * (i)));
    struct { uint8_t a; uint32_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint32_le(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int32_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int32_le(&t.v, buf + 4);
    CHECK(t.v == (int32_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}

static void w32_be(void) {
    fresh();
    uint32_t v = in_u32(), u = in_u32();
    CHECK(serialize_uint32_be(buf + 4, v) == 4, "the width is returned");
    for (int i = 0; i < 4; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (3 - i))), "the bytes of the value are written in the named order");
    untouched(4, 4);
    CHECK(deserialize_uint32_be(&u, buf + 4) == 4 && u == v, "deserializing returns the value and the width");
    int32_t s = (int32_t)in_u32();
    CHECK(deserialize_int32_be(&s, buf + 4) == 4 && s == (int32_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint32_t want = 0;
    for (int i = 0; i < 4; i++) want |= (uint32_t)((uint64_t)buf[4 + i] << (8 * (3 - i)));
    struct { uint8_t a; uint32_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint32_be(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int32_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int32_be(&t.v, buf + 4);
    CHECK(t.v == (int32_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}

static void w64_le(void) {
    fresh();
    uint64_t v = in_u64(), u = in_u64();
    CHECK(serialize_uint64_le(buf + 4, v) == 8, "the width is returned");
    for (int i = 0; i < 8; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (i))), "the bytes of the value are written in the named order");
    untouched(4, 8);
    CHECK(deserialize_uint64_le(&u, buf + 4) == 8 && u == v, "deserializing returns the value and the width");
    int64_t s = (int64_t)in_u64();
    CHECK(deserialize_int64_le(&s, buf + 4) == 8 && s == (int64_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint64_t want = 0;
    for (int i = 0; i < 8; i++) want |= (uint64_t)((uint64_t)buf[4 + i] << (8 * (i)));
    struct { uint8_t a; uint64_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint64_le(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int64_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int64_le(&t.v, buf + 4);
    CHECK(t.v == (int64_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}

static void w64_be(void) {
    fresh();
    uint64_t v = in_u64(), u = in_u64();
    CHECK(serialize_uint64_be(buf + 4, v) == 8, "the width is returned");
    for (int i = 0; i < 8; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)v >> (8 * (7 - i))), "the bytes of the value are written in the named order");
    untouched(4, 8);
    CHECK(deserialize_uint64_be(&u, buf + 4) == 8 && u == v, "deserializing returns the value and the width");
    int64_t s = (int64_t)in_u64();
    CHECK(deserialize_int64_be(&s, buf + 4) == 8 && s == (int64_t)v, "deserializing a signed integer returns the value and the width");
    fresh();
    uint64_t want = 0;
    for (int i = 0; i < 8; i++) want |= (uint64_t)((uint64_t)buf[4 + i] << (8 * (7 - i)));
    struct { uint8_t a; uint64_t v; uint8_t b; } d = {in_u8(), 0, in_u8()}, d0 = d;
    deserialize_uint64_be(&d.v, buf + 4);
    CHECK(d.v == want && d.a == d0.a && d.b == d0.b, "any bytes are read as the value they encode, into the destination only");
    struct { uint8_t a; int64_t v; uint8_t b; } t = {in_u8(), 0, in_u8()}, t0 = t;
    deserialize_int64_be(&t.v, buf + 4);
    CHECK(t.v == (int64_t)want && t.a == t0.a && t.b == t0.b, "any bytes are read as the signed value they encode, into the destination only");
    same();
}
void vh_roundtrip(void) {
    w8();
    w16_le();
    w16_be();
    w32_le();
    w32_be();
    w64_le();
    w64_be();
    REACH("end");
}

/* macros: expressions, destinations of other types, names that the macros may use themselves, single evaluation */
static int evals;
static uint8_t *at(int i) { evals++; return buf + i; }
static uint64_t val(uint64_t v) { evals++; return v; }
#define PACK(W, v, n, BE)                                                                                   \
    fresh(); evals = 0;                                                                                     \
    CHECK(W(at(4), val(v)) == n, "packing returns the width");                                              \
    CHECK(evals == 2, "packing evaluates each argument once");                                              \
    for (int i = 0; i < n; i++) CHECK(buf[4 + i] == (uint8_t)((uint64_t)(v) >> (8 * (n - 1 - i))), "packing stores the truncated value in order"); \
    untouched(4, n);
void vh_pack(void) {
    uint64_t v = in_u64();
    PACK(PACK_UINT8, v, 1, 1)
    PACK(PACK_UINT16_BE, v, 2, 1)
    int32_t neg = in_i32();
    PACK(PACK_UINT8, (uint64_t)(int64_t)neg, 1, 1)
    /* an expression with operators of low precedence */
    uint16_t x = in_u16(), y = in_u16(); int c = in_bool();
    fresh();
    CHECK(PACK_UINT16_BE(buf, c ? x : y) == 2 && buf[0] == (c ? x : y) >> 8 && buf[1] == ((c ? x : y) & 255), "any expression is packed");
    CHECK(PACK_UINT16_BE(buf, x | y) == 2 && buf[0] == (x | y) >> 8 && buf[1] == ((x | y) & 255), "any expression is packed");
    CHECK(PACK_UINT16_BE(buf + c, x) == 2 && buf[c] == x >> 8 && buf[c + 1] == (x & 255), "any pointer expression is packed to");
    CHECK(PACK_UINT8(buf + c, x ^ y) == 1 && buf[c] == ((x ^ y) & 255), "any expression is packed");
    REACH("end");
}
#define NAMES(tmp) {                                                                                        \
    fresh();                                                                                                \
    { uint16_t tmp = in_u16(), k = tmp; CHECK(PACK_UINT16_BE(buf, tmp) == 2 && buf[0] == k >> 8 && buf[1] == (k & 255), "the names of the caller do not matter"); } \
    { uint8_t tmp = in_u8(), k = tmp; CHECK(PACK_UINT8(buf, tmp) == 1 && buf[0] == k, "the names of the caller do not matter"); } \
    { uint16_t k = in_u16(); uint8_t *tmp = buf + 3; CHECK(PACK_UINT16_BE(tmp, k) == 2 && buf[3] == k >> 8 && buf[4] == (k & 255), "the names of the caller do not matter"); } \
    { uint8_t k = in_u8(); uint8_t *tmp = buf + 3; CHECK(PACK_UINT8(tmp, k) == 1 && buf[3] == k, "the names of the caller do not matter"); } \
    fresh();                                                                                                \
    { uint16_t tmp = 0; CHECK(UNPACK_UINT16_BE(tmp, buf) == 2 && tmp == (uint16_t)(buf[0] << 8 | buf[1]), "the names of the caller do not matter"); } \
    { uint8_t tmp = 0; CHECK(UNPACK_UINT8(tmp, buf) == 1 && tmp == buf[0], "the names of the caller do not matter"); } \
    { uint32_t tmp = 0; CHECK(UNPACK_UINT32_BE(tmp, buf) == 4 && tmp == ((uint32_t)buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3]), "the names of the caller do not matter"); } \
    { uint16_t k = 0; uint8_t *tmp = buf + 3; CHECK(UNPACK_UINT16_BE(k, tmp) == 2 && k == (uint16_t)(buf[3] << 8 | buf[4]), "the names of the caller do not matter"); } \
    { uint8_t k = 0; uint8_t *tmp = buf + 3; CHECK(UNPACK_UINT8(k, tmp) == 1 && k == buf[3], "the names of the caller do not matter"); } \
    { uint32_t k = 0; uint8_t *tmp = buf + 3; CHECK(UNPACK_UINT32_BE(k, tmp) == 4 && k == ((uint32_t)buf[3] << 24 | buf[4] << 16 | buf[5] << 8 | buf[6]), "the names of the caller do not matter"); } }
void vh_names(void) {
    NAMES(tmp) NAMES(size) NAMES(var) NAMES(buffer) NAMES(val) NAMES(res) NAMES(buf1) NAMES(value) NAMES(len) NAMES(i) NAMES(x) NAMES(data)
    REACH("end");
}
#define UNPACK(M, n, T) {                                                                                   \
    struct { uint8_t a; T v; uint8_t b; } d = {in_u8(), 0, in_u8()}; uint8_t a = d.a, b = d.b;              \
    fresh(); evals = 0; uint32_t want = 0;                                                                  \
    for (int i = 0; i < n; i++) want = (want << 8) | buf[2 + i];                                            \
    CHECK(M(d.v, at(2)) == n, "unpacking returns the width");                                               \
    CHECK(evals == 1, "unpacking evaluates its buffer once");                                               \
    CHECK(d.v == (T)want, "unpacking stores the value read, converted to the destination");                 \
    CHECK(d.a == a && d.b == b, "unpacking writes the destination only");                                   \
    same(); }
#define UNPACKS(M, n) UNPACK(M, n, uint8_t) UNPACK(M, n, int8_t) UNPACK(M, n, uint16_t) UNPACK(M, n, int) UNPACK(M, n, unsigned) UNPACK(M, n, uint64_t) UNPACK(M, n, int64_t) UNPACK(M, n, double)
void vh_unpack8(void) { UNPACKS(UNPACK_UINT8, 1) REACH("end"); }
void vh_unpack16(void) { UNPACKS(UNPACK_UINT16_BE, 2) REACH("end"); }
void vh_unpack32(void) { UNPACKS(UNPACK_UINT32_BE, 4) REACH("end"); }
void vh_unpack_once(void) {
    uint32_t arr[3] = {0, 0, 0}; int i = 0;
    fresh();
    CHECK(UNPACK_UINT16_BE(arr[i++], buf + i) == 2 && i == 1, "the destination is evaluated once");
    int j = in_bool(); i = 1;
    CHECK(UNPACK_UINT32_BE(arr[i + j], buf + 2 * j) == 4 && arr[1 + j] == ((uint32_t)buf[2 * j] << 24 | buf[2 * j + 1] << 16 | buf[2 * j + 2] << 8 | buf[2 * j + 3]), "any destination and pointer expression works");
    REACH("end");
}
