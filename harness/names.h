// Names of the NAL unit types.
#pragma once

// Table 7-1, names without the _NUT suffix in lower case
static const char* const kNames[64] = {
    "trail_n", "trail_r", "tsa_n", "tsa_r", "stsa_n", "stsa_r", "radl_n", "radl_r",
    "rasl_n", "rasl_r", "rsv_vcl_n10", "rsv_vcl_r11", "rsv_vcl_n12", "rsv_vcl_r13", "rsv_vcl_n14", "rsv_vcl_r15",
    "bla_w_lp", "bla_w_radl", "bla_n_lp", "idr_w_radl", "idr_n_lp", "cra", "rsv_irap_vcl22", "rsv_irap_vcl23",
    "rsv_vcl24", "rsv_vcl25", "rsv_vcl26", "rsv_vcl27", "rsv_vcl28", "rsv_vcl29", "rsv_vcl30", "rsv_vcl31",
    "vps", "sps", "pps", "aud", "eos", "eob", "fd", "prefix_sei",
    "suffix_sei", "rsv_nvcl41", "rsv_nvcl42", "rsv_nvcl43", "rsv_nvcl44", "rsv_nvcl45", "rsv_nvcl46", "rsv_nvcl47",
    "ap", "fu", "unspec50", "unspec51", "unspec52", "unspec53", "unspec54", "unspec55",
    "unspec56", "unspec57", "unspec58", "unspec59", "unspec60", "unspec61", "unspec62", "unspec63"};
static inline const char* nal_type_name(unsigned t) { return kNames[t & 63]; }
