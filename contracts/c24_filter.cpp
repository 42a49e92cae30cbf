// region filters: the decision on a region name from the lists, for names and list entries of any length and any matching relation between them
#include "variant.h"
#ifndef VF_NATIVE
#include "caliper/RegionFilter.cpp"
using namespace cali;
// trusted models of text comparison: entry i's text agrees (or not) with the beginning of the name; regular expression i matches (or not)
static std::string *g_sw, *g_ma; static std::regex* g_re; static bool g_eqs[3], g_eqm[3], g_rx[3]; static char g_name[1]; static char g_tag[6]; static uint64_t g_len;
extern "C" int32_t vf_model___ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareEmmPKcm(const std::string* s, uint64_t pos, uint64_t n, const char* p, uint64_t m)
{
    const char* t = s->_M_dataplus._M_p; const unsigned i = t == g_tag || t == g_tag + 3 ? 0 : t == g_tag + 1 || t == g_tag + 4 ? 1 : 2; const bool sw = t == g_tag || t == g_tag + 1 || t == g_tag + 2; const uint64_t size = s->_M_string_length;
    ENSURES(p == g_name && m <= g_len, "only characters of the name are read"); ENSURES(pos == 0 && n >= size && m == size, "the whole entry is compared with the beginning of the name"); return (sw ? g_eqs : g_eqm)[i] ? 0 : 1;
}
extern "C" bool vf_model___ZSt11regex_matchISt11char_traitsIcESaIcEcNSt7__cxx1112regex_traitsIcEEEbRKNS3_12basic_stringIT1_T_T0_EERKNS3_11basic_regexIS7_T2_EENSt15regex_constants15match_flag_typeE(const std::string* s, const std::regex* r, int) { ENSURES(s->_M_string_length == g_len, "regular expressions are matched against the whole name"); return g_rx[r == g_re ? 0 : r == g_re + 1 ? 1 : 2]; }
// the temporary string holding the name
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2EPKcmRKS3_(std::string* s, const char* p, uint64_t n, const void*) { ENSURES(p == g_name && n == g_len, "regular expressions are matched against the whole name"); s->_M_string_length = n; }
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1EPKcmRKS3_(std::string* s, const char* p, uint64_t n, const void*) { ENSURES(p == g_name && n == g_len, "regular expressions are matched against the whole name"); s->_M_string_length = n; }
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED2Ev(void*) {}
extern "C" void vf_model___ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev(void*) {}
static void decide(bool few)
{
    union U { RegionFilter::Filter f; U() {} ~U() {} } u; static union S { std::string s[3]; S() {} ~S() {} } st, mt; g_sw = st.s; g_ma = mt.s; g_len = ND_U64(); REQUIRES(g_len < (1ull << 32));
    const unsigned ns = ND_BELOW(4), nm = ND_BELOW(4), nr = ND_BELOW(4); static union R { std::regex r[3]; R() {} ~R() {} } re; g_re = re.r; u.f.regex._M_impl._M_start = g_re; u.f.regex._M_impl._M_finish = g_re + nr; for (int i = 0; i < 3; ++i) { st.s[i]._M_string_length = ND_BELOW(1ull << 40); st.s[i]._M_dataplus._M_p = g_tag + i; mt.s[i]._M_string_length = ND_BELOW(1ull << 40); mt.s[i]._M_dataplus._M_p = g_tag + 3 + i; g_eqs[i] = ND_BOOL(); g_eqm[i] = ND_BOOL(); g_rx[i] = ND_BOOL(); }
    u.f.startswith._M_impl._M_start = g_sw; u.f.startswith._M_impl._M_finish = g_sw + ns; u.f.match._M_impl._M_start = g_ma; u.f.match._M_impl._M_finish = g_ma + nm; (void) few;
    const Variant v(CALI_TYPE_STRING, g_name, g_len); bool x = false; for (unsigned i = 0; i < 3; ++i) { if (i < ns && g_sw[i]._M_string_length <= g_len && g_eqs[i]) x = true; if (i < nm && g_ma[i]._M_string_length == g_len && g_eqm[i]) x = true; if (i < nr && g_rx[i]) x = true; }
    ENSURES(RegionFilter::match(v, u.f) == x, "a name is matched exactly if it begins with a prefix entry or equals a match entry or a regular expression matches it"); REACH("end");
}
CONTRACT(filter_lists) { decide(true); }
#endif
