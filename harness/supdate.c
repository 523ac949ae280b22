/* struct_update.  Bounds: objects of OBJ bytes, every offset/size inside, two instances, two applications. */
#include "vh.h"
#include "data_structures/struct_update.h"
#ifndef OBJ
#define OBJ 8
#endif
/* raw: every (offset, size) pair is a case */
void vh_raw(void) {
    uint8_t src[OBJ], src0[OBJ], d1[OBJ], d1o[OBJ], d2[OBJ], d2o[OBJ];
    size_t off = P(0), len = P(1);
    for (int i = 0; i < OBJ; i++) { src[i] = src0[i] = in_u8(); d1[i] = d1o[i] = in_u8(); d2[i] = d2o[i] = in_u8(); }
    struct_update_t u = struct_update_from_data(off, src, len);
    for (int i = 0; i < OBJ; i++) CHECK(src[i] == src0[i], "recording does not change the data");
    for (int i = 0; i < OBJ; i++) src[i] = in_u8();                     /* later changes */
    for (int round = 0; round < 2; round++) {
        struct_update_apply(d1, u);
        for (size_t i = 0; i < OBJ; i++)
            if (i >= off && i < off + len) CHECK(d1[i] == src0[i - off], "the recorded bytes are written");
            else CHECK(d1[i] == d1o[i], "no other byte changes");
        struct_update_apply(d2, u);
        for (size_t i = 0; i < OBJ; i++)
            if (i >= off && i < off + len) CHECK(d2[i] == src0[i - off], "the recorded bytes are written to every instance");
            else CHECK(d2[i] == d2o[i], "no other byte changes");
        for (int i = 0; i < OBJ; i++) { d1[i] = d1o[i] = in_u8(); d2[i] = d2o[i] = in_u8(); }
    }
    struct_update_free(u);
    REACH("end");
}
typedef struct { uint8_t a; uint32_t b; uint16_t arr[3]; struct { uint8_t x; uint16_t y; } in[2]; double d; uint8_t z; } obj_t;
static void fill(obj_t *o) {
    memset(o, 0, sizeof *o);
    o->a = in_u8(); o->b = in_u32(); for (int i = 0; i < 3; i++) o->arr[i] = in_u16();
    for (int i = 0; i < 2; i++) { o->in[i].x = in_u8(); o->in[i].y = in_u16(); }
    uint64_t v = in_u64(); memcpy(&o->d, &v, 8); o->z = in_u8();
}
static void same_but(obj_t *p, obj_t *q, size_t off, size_t len, const void *val) {
    const uint8_t *a = (const uint8_t *)p, *b = (const uint8_t *)q, *v = val;
    for (size_t i = 0; i < sizeof *p; i++)
        if (i >= off && i < off + len) CHECK(a[i] == v[i - off], "the field has the recorded value");
        else CHECK(a[i] == b[i], "everything outside the field is as before");
}
void vh_fields(void) {
    obj_t o, o0, model = {0};
    fill(&o); o0 = o;
    int w = P(0);
    uint8_t v8 = in_u8(); uint16_t v16[3] = {in_u16(), in_u16(), in_u16()}; uint32_t v32 = in_u32();
    struct_update_t u;
    if (w == 0) { uint8_t k = v8; u = STRUCT_UPDATE(model, a, v8); v8 = in_u8(); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, a), 1, &k); }
    else if (w == 1) { uint32_t k = v32; u = STRUCT_UPDATE(model, b, v32); v32 = in_u32(); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, b), 4, &k); }
    else if (w == 2) {      /* a narrower value is converted to the field's type */
        uint32_t k = v8; u = STRUCT_UPDATE(model, b, v8); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, b), 4, &k);
    } else if (w == 3) {    /* one array element */
        uint16_t k = v16[1]; u = STRUCT_UPDATE(model, arr[2], v16[1]); v16[1] = in_u16(); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, arr) + 4, 2, &k);
    } else if (w <= 7) {    /* an array portion of 0..3 elements */
        int n = w - 4; uint16_t k[3]; memcpy(k, v16, sizeof k);
        u = STRUCT_UPDATE_ARRAY(model, arr, v16, n); v16[0] = in_u16(); v16[2] = in_u16(); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, arr), 2 * n, k);
    } else if (w == 8) {    /* an expression as length, a pointer expression as source */
        int one = 1; uint16_t k[2] = {v16[1], v16[2]};
        u = STRUCT_UPDATE_ARRAY(model, arr, v16 + 1, one + one); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, arr), 4, k);
    } else if (w == 9) {    /* a nested field, an expression as value */
        uint16_t k = v16[0] + 1; u = STRUCT_UPDATE(model, in[1].y, v16[0] + 1); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, in[1].y), 2, &k);
    } else {
        double k = (double)(int)v32; u = STRUCT_UPDATE(model, d, (int)v32); struct_update_apply(&o, u); same_but(&o, &o0, offsetof(obj_t, d), 8, &k);
    }
    struct_update_free(u);
    REACH("end");
}
/* big objects: one byte of interest, all offsets */
#ifndef BIG
#define BIG 300
#endif
void vh_big(void) {
    static uint8_t src[BIG], dst[BIG];
    size_t off = P(0), len = P(1), at = in_range(0, BIG - 1), sp = in_range(0, BIG - 1);
    uint8_t a = in_u8(), b = in_u8();
    src[sp] = a; dst[at] = b;
    struct_update_t u = struct_update_from_data(off, src, len);
    src[sp] = in_u8();
    struct_update_apply(dst, u);
    CHECK(dst[at] == (at >= off && at < off + len ? (at - off == sp ? a : 0) : b), "exactly the recorded bytes change, also in big objects");
    struct_update_free(u);
    REACH("end");
}
/* any offset and size up to BIG; one recorded byte is followed, one byte outside is looked at */
#ifdef VH_CBMC
extern unsigned char *vh_follow, *vh_look;
#endif
void vh_any_size(void) {
    static uint8_t src[BIG], dst[BIG];
    size_t off = in_size(), len = in_size(), sp = in_size(), at = in_size();
    ASSUME(len <= BIG && off <= BIG - len && sp < len && at < BIG && (at < off || at >= off + len));
    uint8_t a = in_u8(), b = in_u8();
    src[sp] = a; dst[at] = b;
#ifdef VH_CBMC
    vh_follow = &src[sp]; vh_look = &dst[at];
#endif
    struct_update_t u = struct_update_from_data(off, src, len);
    src[sp] = in_u8();
    struct_update_apply(dst, u);
    CHECK(dst[off + sp] == a, "the recorded bytes are written");
    CHECK(dst[at] == b, "no other byte changes");
    struct_update_free(u);
    if (len > 65536) REACH("more than 16 bits");
    if (off > 65536) REACH("an offset of more than 16 bits");
    REACH("end");
}
