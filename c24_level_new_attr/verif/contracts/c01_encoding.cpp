#include "variant.h"
#include "common/util/vlenc.h"
CONTRACT(vlenc_roundtrip)
{
    uint64_t v = ND_U64();
    unsigned char buf[12], old[12];
    for (int i = 0; i < 12; ++i) old[i] = buf[i] = ND_U8();
    size_t inc0 = ND_U32();
    size_t n = vlenc_u64(v, buf);
    ENSURES(n >= 1 && n <= 10, "encoded length is 1..10 bytes");
    size_t need = 1; for (uint64_t x = v; x > 0x7F; x >>= 7) ++need;
    ENSURES(n == need, "values below 128 take one byte, each further 7 bits one more");
    unsigned g = ND_BELOW(12);
    ENSURES(g < n || buf[g] == old[g], "bytes after the encoding are untouched");
    size_t inc = inc0;
    uint64_t r = vldec_u64(buf, &inc);
    ENSURES(r == v, "decode(encode(v)) == v");
    ENSURES(inc == inc0 + n, "decode consumes exactly the bytes written");
    REACH("end");
}
CONTRACT(vlenc_sequence)
{
    uint64_t a = ND_U64(), b = ND_U64();
    unsigned char buf[20];
    size_t n = vlenc_u64(a, buf); n += vlenc_u64(b, buf + n);
    size_t pos = 0;
    uint64_t x = vldec_u64(buf + pos, &pos);
    uint64_t y = vldec_u64(buf + pos, &pos);
    ENSURES(x == a && y == b && pos == n, "two adjacent encodings decode independently");
    REACH("end");
}
CONTRACT(vldec_any_input)
{
    unsigned char* buf = (unsigned char*) malloc(10);   // decoding arbitrary bytes stays within 10 bytes
    for (int i = 0; i < 10; ++i) buf[i] = ND_U8();
    size_t inc = 0; vldec_u64(buf, &inc);
    ENSURES(inc >= 1 && inc <= 10, "decoder reads 1..10 bytes whatever the input");
    free(buf);
    REACH("end");
}
CONTRACT(variant_roundtrip)
{
    // any representable value: type tag in range, any payload
    cali_variant_t v; v.type_and_size = ND_U64(); v.value.v_uint = ND_U64();
    REQUIRES((v.type_and_size & 0xFF) <= CALI_MAXTYPE);
    unsigned char buf[22], old[22];
    for (int i = 0; i < 22; ++i) old[i] = buf[i] = 0xA5;
    Variant val(v);
    size_t n = val.pack(buf);
    ENSURES(n >= 2 && n <= 20, "packed value takes 2..20 bytes");
    unsigned g = ND_BELOW(22);
    ENSURES(g < n || buf[g] == old[g], "bytes after the packed value are untouched");
    size_t inc = 3; bool ok = ND_BOOL();
    Variant r = Variant::unpack(buf, &inc, &ok);
    cali_variant_t c = r.c_variant();
    ENSURES(ok, "unpacking a packed value succeeds");
    ENSURES(c.type_and_size == v.type_and_size && c.value.v_uint == v.value.v_uint, "unpack(pack(v)) == v (type, size and value)");
    ENSURES(inc == 3 + n, "unpack consumes exactly the bytes written");
    REACH("end");
}
CONTRACT(variant_unpack_bad_type)
{
    unsigned char* buf = (unsigned char*) malloc(20);
    for (int i = 0; i < 20; ++i) buf[i] = ND_U8();
    size_t p = 0; uint64_t ts = vldec_u64(buf, &p);
    size_t inc = 0; bool ok = ND_BOOL();
    Variant r = Variant::unpack(buf, &inc, &ok);
    ENSURES(ok == ((ts & 0xFF) <= CALI_MAXTYPE), "success is reported exactly for valid type tags");
    ENSURES(inc <= 20, "never reads past the longest encoding");
    if (!ok) ENSURES(r.empty(), "a value with an invalid type tag decodes to the empty value");
    free(buf);
    REACH("end");
}
