// generated by tools/gen_cvwrap.py
void w1_bitwise_or(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3) asm("_ZN2cv10bitwise_orERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_");
void w1_bitwise_or(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3){ REAL("_ZN2cv10bitwise_orERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); Out o2(a2); in(a3); real(a0, a1, a2, a3); o2.done(); }
bool w2_checkRange(cv::_InputArray const& a0, bool a1, cv::Point_<int>* a2, double a3, double a4) asm("_ZN2cv10checkRangeERKNS_11_InputArrayEbPNS_6Point_IiEEdd");
bool w2_checkRange(cv::_InputArray const& a0, bool a1, cv::Point_<int>* a2, double a3, double a4){ REAL("_ZN2cv10checkRangeERKNS_11_InputArrayEbPNS_6Point_IiEEdd",bool(*)(cv::_InputArray const&, bool, cv::Point_<int>*, double, double)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); auto r=real(a0, a1, a2, a3, a4); return r; }
void w3_meanStdDev(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3) asm("_ZN2cv10meanStdDevERKNS_11_InputArrayERKNS_12_OutputArrayES5_S2_");
void w3_meanStdDev(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3){ REAL("_ZN2cv10meanStdDevERKNS_11_InputArrayERKNS_12_OutputArrayES5_S2_",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); Out o2(a2); in(a3); real(a0, a1, a2, a3); o1.done(); o2.done(); }
void w4_addWeighted(cv::_InputArray const& a0, double a1, cv::_InputArray const& a2, double a3, double a4, cv::_OutputArray const& a5, int a6) asm("_ZN2cv11addWeightedERKNS_11_InputArrayEdS2_ddRKNS_12_OutputArrayEi");
void w4_addWeighted(cv::_InputArray const& a0, double a1, cv::_InputArray const& a2, double a3, double a4, cv::_OutputArray const& a5, int a6){ REAL("_ZN2cv11addWeightedERKNS_11_InputArrayEdS2_ddRKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, double, cv::_InputArray const&, double, double, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); in(a2); Out o5(a5); real(a0, a1, a2, a3, a4, a5, a6); o5.done(); }
void w5_bitwise_and(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3) asm("_ZN2cv11bitwise_andERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_");
void w5_bitwise_and(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3){ REAL("_ZN2cv11bitwise_andERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); Out o2(a2); in(a3); real(a0, a1, a2, a3); o2.done(); }
void w6_bitwise_not(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv11bitwise_notERKNS_11_InputArrayERKNS_12_OutputArrayES2_");
void w6_bitwise_not(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv11bitwise_notERKNS_11_InputArrayERKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); in(a2); real(a0, a1, a2); o1.done(); }
void w7_bitwise_xor(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3) asm("_ZN2cv11bitwise_xorERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_");
void w7_bitwise_xor(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3){ REAL("_ZN2cv11bitwise_xorERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); Out o2(a2); in(a3); real(a0, a1, a2, a3); o2.done(); }
void w8_cartToPolar(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_OutputArray const& a3, bool a4) asm("_ZN2cv11cartToPolarERKNS_11_InputArrayES2_RKNS_12_OutputArrayES5_b");
void w8_cartToPolar(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_OutputArray const& a3, bool a4){ REAL("_ZN2cv11cartToPolarERKNS_11_InputArrayES2_RKNS_12_OutputArrayES5_b",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, bool)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); Out o3(a3); real(a0, a1, a2, a3, a4); o2.done(); o3.done(); }
void w9_findNonZero(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv11findNonZeroERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w9_findNonZero(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv11findNonZeroERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w10_polarToCart(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_OutputArray const& a3, bool a4) asm("_ZN2cv11polarToCartERKNS_11_InputArrayES2_RKNS_12_OutputArrayES5_b");
void w10_polarToCart(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_OutputArray const& a3, bool a4){ REAL("_ZN2cv11polarToCartERKNS_11_InputArrayES2_RKNS_12_OutputArrayES5_b",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, bool)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); Out o3(a3); real(a0, a1, a2, a3, a4); o2.done(); o3.done(); }
void w11_setIdentity(cv::_InputOutputArray const& a0, cv::Scalar_<double> const& a1) asm("_ZN2cv11setIdentityERKNS_17_InputOutputArrayERKNS_7Scalar_IdEE");
void w11_setIdentity(cv::_InputOutputArray const& a0, cv::Scalar_<double> const& a1){ REAL("_ZN2cv11setIdentityERKNS_17_InputOutputArrayERKNS_7Scalar_IdEE",void(*)(cv::_InputOutputArray const&, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o0(a0); real(a0, a1); o0.done(); }
int w12_countNonZero(cv::_InputArray const& a0) asm("_ZN2cv12countNonZeroERKNS_11_InputArrayE");
int w12_countNonZero(cv::_InputArray const& a0){ REAL("_ZN2cv12countNonZeroERKNS_11_InputArrayE",int(*)(cv::_InputArray const&)); Guard g; if(!g.top) return real(a0); in(a0); auto r=real(a0); return r; }
void w13_insertChannel(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, int a2) asm("_ZN2cv13insertChannelERKNS_11_InputArrayERKNS_17_InputOutputArrayEi");
void w13_insertChannel(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, int a2){ REAL("_ZN2cv13insertChannelERKNS_11_InputArrayERKNS_17_InputOutputArrayEi",void(*)(cv::_InputArray const&, cv::_InputOutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w14_copyMakeBorder(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4, int a5, int a6, cv::Scalar_<double> const& a7) asm("_ZN2cv14copyMakeBorderERKNS_11_InputArrayERKNS_12_OutputArrayEiiiiiRKNS_7Scalar_IdEE");
void w14_copyMakeBorder(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4, int a5, int a6, cv::Scalar_<double> const& a7){ REAL("_ZN2cv14copyMakeBorderERKNS_11_InputArrayERKNS_12_OutputArrayEiiiiiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, int, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6, a7); o1.done(); }
void w15_extractChannel(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv14extractChannelERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w15_extractChannel(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv14extractChannelERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w16_convertScaleAbs(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, double a3) asm("_ZN2cv15convertScaleAbsERKNS_11_InputArrayERKNS_12_OutputArrayEdd");
void w16_convertScaleAbs(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, double a3){ REAL("_ZN2cv15convertScaleAbsERKNS_11_InputArrayERKNS_12_OutputArrayEdd",void(*)(cv::_InputArray const&, cv::_OutputArray const&, double, double)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); real(a0, a1, a2, a3); o1.done(); }
void w17_LUT(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv3LUTERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w17_LUT(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv3LUTERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w18_add(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3, int a4) asm("_ZN2cv3addERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_i");
void w18_add(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3, int a4){ REAL("_ZN2cv3addERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_i",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); in(a3); real(a0, a1, a2, a3, a4); o2.done(); }
void w19_dct(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv3dctERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w19_dct(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv3dctERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w20_dft(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3) asm("_ZN2cv3dftERKNS_11_InputArrayERKNS_12_OutputArrayEii");
void w20_dft(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3){ REAL("_ZN2cv3dftERKNS_11_InputArrayERKNS_12_OutputArrayEii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); real(a0, a1, a2, a3); o1.done(); }
void w21_exp(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv3expERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w21_exp(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv3expERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w22_log(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv3logERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w22_log(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv3logERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w23_max(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv3maxERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w23_max(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv3maxERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w24_min(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv3minERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w24_min(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv3minERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w25_pow(cv::_InputArray const& a0, double a1, cv::_OutputArray const& a2) asm("_ZN2cv3powERKNS_11_InputArrayEdRKNS_12_OutputArrayE");
void w25_pow(cv::_InputArray const& a0, double a1, cv::_OutputArray const& a2){ REAL("_ZN2cv3powERKNS_11_InputArrayEdRKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, double, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o2(a2); real(a0, a1, a2); o2.done(); }
cv::Scalar w26_sum(cv::_InputArray const& a0) asm("_ZN2cv3sumERKNS_11_InputArrayE");
cv::Scalar w26_sum(cv::_InputArray const& a0){ REAL("_ZN2cv3sumERKNS_11_InputArrayE",cv::Scalar(*)(cv::_InputArray const&)); Guard g; if(!g.top) return real(a0); in(a0); auto r=real(a0); return r; }
void w27_flip(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv4flipERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w27_flip(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv4flipERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w28_idft(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3) asm("_ZN2cv4idftERKNS_11_InputArrayERKNS_12_OutputArrayEii");
void w28_idft(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3){ REAL("_ZN2cv4idftERKNS_11_InputArrayERKNS_12_OutputArrayEii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); real(a0, a1, a2, a3); o1.done(); }
cv::Scalar w29_mean(cv::_InputArray const& a0, cv::_InputArray const& a1) asm("_ZN2cv4meanERKNS_11_InputArrayES2_");
cv::Scalar w29_mean(cv::_InputArray const& a0, cv::_InputArray const& a1){ REAL("_ZN2cv4meanERKNS_11_InputArrayES2_",cv::Scalar(*)(cv::_InputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); in(a1); auto r=real(a0, a1); return r; }
double w30_norm(cv::_InputArray const& a0, cv::_InputArray const& a1, int a2, cv::_InputArray const& a3) asm("_ZN2cv4normERKNS_11_InputArrayES2_iS2_");
double w30_norm(cv::_InputArray const& a0, cv::_InputArray const& a1, int a2, cv::_InputArray const& a3){ REAL("_ZN2cv4normERKNS_11_InputArrayES2_iS2_",double(*)(cv::_InputArray const&, cv::_InputArray const&, int, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); in(a3); auto r=real(a0, a1, a2, a3); return r; }
double w31_norm(cv::_InputArray const& a0, int a1, cv::_InputArray const& a2) asm("_ZN2cv4normERKNS_11_InputArrayEiS2_");
double w31_norm(cv::_InputArray const& a0, int a1, cv::_InputArray const& a2){ REAL("_ZN2cv4normERKNS_11_InputArrayEiS2_",double(*)(cv::_InputArray const&, int, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a2); auto r=real(a0, a1, a2); return r; }
void w32_sort(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv4sortERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w32_sort(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv4sortERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w33_sqrt(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv4sqrtERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w33_sqrt(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv4sqrtERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w34_merge(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv5mergeERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w34_merge(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv5mergeERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w35_phase(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, bool a3) asm("_ZN2cv5phaseERKNS_11_InputArrayES2_RKNS_12_OutputArrayEb");
void w35_phase(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, bool a3){ REAL("_ZN2cv5phaseERKNS_11_InputArrayES2_RKNS_12_OutputArrayEb",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, bool)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); Out o2(a2); real(a0, a1, a2, a3); o2.done(); }
void w36_randn(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv5randnERKNS_17_InputOutputArrayERKNS_11_InputArrayES5_");
void w36_randn(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv5randnERKNS_17_InputOutputArrayERKNS_11_InputArrayES5_",void(*)(cv::_InputOutputArray const&, cv::_InputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o0(a0); in(a1); in(a2); real(a0, a1, a2); o0.done(); }
void w37_randu(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv5randuERKNS_17_InputOutputArrayERKNS_11_InputArrayES5_");
void w37_randu(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv5randuERKNS_17_InputOutputArrayERKNS_11_InputArrayES5_",void(*)(cv::_InputOutputArray const&, cv::_InputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o0(a0); in(a1); in(a2); real(a0, a1, a2); o0.done(); }
void w38_split(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv5splitERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w38_split(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv5splitERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w39_copyTo(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv6copyToERKNS_11_InputArrayERKNS_12_OutputArrayES2_");
void w39_copyTo(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv6copyToERKNS_11_InputArrayERKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); in(a2); real(a0, a1, a2); o1.done(); }
void w40_divide(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, double a3, int a4) asm("_ZN2cv6divideERKNS_11_InputArrayES2_RKNS_12_OutputArrayEdi");
void w40_divide(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, double a3, int a4){ REAL("_ZN2cv6divideERKNS_11_InputArrayES2_RKNS_12_OutputArrayEdi",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); real(a0, a1, a2, a3, a4); o2.done(); }
void w41_divide(double a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, int a3) asm("_ZN2cv6divideEdRKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w41_divide(double a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, int a3){ REAL("_ZN2cv6divideEdRKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(double, cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a1); Out o2(a2); real(a0, a1, a2, a3); o2.done(); }
double w42_kmeans(cv::_InputArray const& a0, int a1, cv::_InputOutputArray const& a2, cv::TermCriteria a3, int a4, int a5, cv::_OutputArray const& a6) asm("_ZN2cv6kmeansERKNS_11_InputArrayEiRKNS_17_InputOutputArrayENS_12TermCriteriaEiiRKNS_12_OutputArrayE");
double w42_kmeans(cv::_InputArray const& a0, int a1, cv::_InputOutputArray const& a2, cv::TermCriteria a3, int a4, int a5, cv::_OutputArray const& a6){ REAL("_ZN2cv6kmeansERKNS_11_InputArrayEiRKNS_17_InputOutputArrayENS_12TermCriteriaEiiRKNS_12_OutputArrayE",double(*)(cv::_InputArray const&, int, cv::_InputOutputArray const&, cv::TermCriteria, int, int, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); in(a2); Out o2(a2); Out o6(a6); auto r=real(a0, a1, a2, a3, a4, a5, a6); o2.done(); o6.done(); return r; }
void w43_reduce(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4) asm("_ZN2cv6reduceERKNS_11_InputArrayERKNS_12_OutputArrayEiii");
void w43_reduce(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4){ REAL("_ZN2cv6reduceERKNS_11_InputArrayERKNS_12_OutputArrayEiii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4); o1.done(); }
void w44_repeat(cv::_InputArray const& a0, int a1, int a2, cv::_OutputArray const& a3) asm("_ZN2cv6repeatERKNS_11_InputArrayEiiRKNS_12_OutputArrayE");
void w44_repeat(cv::_InputArray const& a0, int a1, int a2, cv::_OutputArray const& a3){ REAL("_ZN2cv6repeatERKNS_11_InputArrayEiiRKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, int, int, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o3(a3); real(a0, a1, a2, a3); o3.done(); }
void w45_rotate(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv6rotateERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w45_rotate(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv6rotateERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w46_absdiff(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv7absdiffERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w46_absdiff(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv7absdiffERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w47_compare(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, int a3) asm("_ZN2cv7compareERKNS_11_InputArrayES2_RKNS_12_OutputArrayEi");
void w47_compare(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, int a3){ REAL("_ZN2cv7compareERKNS_11_InputArrayES2_RKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); Out o2(a2); real(a0, a1, a2, a3); o2.done(); }
void w48_hconcat(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv7hconcatERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w48_hconcat(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv7hconcatERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w49_hconcat(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv7hconcatERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w49_hconcat(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv7hconcatERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w50_inRange(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_InputArray const& a2, cv::_OutputArray const& a3) asm("_ZN2cv7inRangeERKNS_11_InputArrayES2_S2_RKNS_12_OutputArrayE");
void w50_inRange(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_InputArray const& a2, cv::_OutputArray const& a3){ REAL("_ZN2cv7inRangeERKNS_11_InputArrayES2_S2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); in(a2); Out o3(a3); real(a0, a1, a2, a3); o3.done(); }
void w51_sortIdx(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv7sortIdxERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w51_sortIdx(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv7sortIdxERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w52_vconcat(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv7vconcatERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w52_vconcat(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv7vconcatERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w53_vconcat(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv7vconcatERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w53_vconcat(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv7vconcatERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w54_multiply(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, double a3, int a4) asm("_ZN2cv8multiplyERKNS_11_InputArrayES2_RKNS_12_OutputArrayEdi");
void w54_multiply(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, double a3, int a4){ REAL("_ZN2cv8multiplyERKNS_11_InputArrayES2_RKNS_12_OutputArrayEdi",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); real(a0, a1, a2, a3, a4); o2.done(); }
void w55_scaleAdd(cv::_InputArray const& a0, double a1, cv::_InputArray const& a2, cv::_OutputArray const& a3) asm("_ZN2cv8scaleAddERKNS_11_InputArrayEdS2_RKNS_12_OutputArrayE");
void w55_scaleAdd(cv::_InputArray const& a0, double a1, cv::_InputArray const& a2, cv::_OutputArray const& a3){ REAL("_ZN2cv8scaleAddERKNS_11_InputArrayEdS2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, double, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a2); Out o3(a3); real(a0, a1, a2, a3); o3.done(); }
void w56_subtract(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3, int a4) asm("_ZN2cv8subtractERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_i");
void w56_subtract(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, cv::_InputArray const& a3, int a4){ REAL("_ZN2cv8subtractERKNS_11_InputArrayES2_RKNS_12_OutputArrayES2_i",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); in(a3); real(a0, a1, a2, a3, a4); o2.done(); }
void w57_magnitude(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2) asm("_ZN2cv9magnitudeERKNS_11_InputArrayES2_RKNS_12_OutputArrayE");
void w57_magnitude(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2){ REAL("_ZN2cv9magnitudeERKNS_11_InputArrayES2_RKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o2(a2); real(a0, a1, a2); o2.done(); }
void w58_minMaxIdx(cv::_InputArray const& a0, double* a1, double* a2, int* a3, int* a4, cv::_InputArray const& a5) asm("_ZN2cv9minMaxIdxERKNS_11_InputArrayEPdS3_PiS4_S2_");
void w58_minMaxIdx(cv::_InputArray const& a0, double* a1, double* a2, int* a3, int* a4, cv::_InputArray const& a5){ REAL("_ZN2cv9minMaxIdxERKNS_11_InputArrayEPdS3_PiS4_S2_",void(*)(cv::_InputArray const&, double*, double*, int*, int*, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); in(a5); real(a0, a1, a2, a3, a4, a5); }
void w59_minMaxLoc(cv::_InputArray const& a0, double* a1, double* a2, cv::Point_<int>* a3, cv::Point_<int>* a4, cv::_InputArray const& a5) asm("_ZN2cv9minMaxLocERKNS_11_InputArrayEPdS3_PNS_6Point_IiEES6_S2_");
void w59_minMaxLoc(cv::_InputArray const& a0, double* a1, double* a2, cv::Point_<int>* a3, cv::Point_<int>* a4, cv::_InputArray const& a5){ REAL("_ZN2cv9minMaxLocERKNS_11_InputArrayEPdS3_PNS_6Point_IiEES6_S2_",void(*)(cv::_InputArray const&, double*, double*, cv::Point_<int>*, cv::Point_<int>*, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); in(a5); real(a0, a1, a2, a3, a4, a5); }
void w60_normalize(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, double a2, double a3, int a4, int a5, cv::_InputArray const& a6) asm("_ZN2cv9normalizeERKNS_11_InputArrayERKNS_17_InputOutputArrayEddiiS2_");
void w60_normalize(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, double a2, double a3, int a4, int a5, cv::_InputArray const& a6){ REAL("_ZN2cv9normalizeERKNS_11_InputArrayERKNS_17_InputOutputArrayEddiiS2_",void(*)(cv::_InputArray const&, cv::_InputOutputArray const&, double, double, int, int, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); in(a1); Out o1(a1); in(a6); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w61_patchNaNs(cv::_InputOutputArray const& a0, double a1) asm("_ZN2cv9patchNaNsERKNS_17_InputOutputArrayEd");
void w61_patchNaNs(cv::_InputOutputArray const& a0, double a1){ REAL("_ZN2cv9patchNaNsERKNS_17_InputOutputArrayEd",void(*)(cv::_InputOutputArray const&, double)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o0(a0); real(a0, a1); o0.done(); }
void w62_transform(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv9transformERKNS_11_InputArrayERKNS_12_OutputArrayES2_");
void w62_transform(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv9transformERKNS_11_InputArrayERKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); in(a2); real(a0, a1, a2); o1.done(); }
void w63_transpose(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv9transposeERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w63_transpose(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv9transposeERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w64_accumulate(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv10accumulateERKNS_11_InputArrayERKNS_17_InputOutputArrayES2_");
void w64_accumulate(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv10accumulateERKNS_11_InputArrayERKNS_17_InputOutputArrayES2_",void(*)(cv::_InputArray const&, cv::_InputOutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o1(a1); in(a2); real(a0, a1, a2); o1.done(); }
void w65_medianBlur(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv10medianBlurERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w65_medianBlur(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv10medianBlurERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w66_warpAffine(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Size_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6) asm("_ZN2cv10warpAffineERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_5Size_IiEEiiRKNS_7Scalar_IdEE");
void w66_warpAffine(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Size_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6){ REAL("_ZN2cv10warpAffineERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_5Size_IiEEiiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, cv::Size_<int>, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); in(a2); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
double w67_contourArea(cv::_InputArray const& a0, bool a1) asm("_ZN2cv11contourAreaERKNS_11_InputArrayEb");
double w67_contourArea(cv::_InputArray const& a0, bool a1){ REAL("_ZN2cv11contourAreaERKNS_11_InputArrayEb",double(*)(cv::_InputArray const&, bool)); Guard g; if(!g.top) return real(a0, a1); in(a0); auto r=real(a0, a1); return r; }
void w68_sepFilter2D(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::_InputArray const& a3, cv::_InputArray const& a4, cv::Point_<int> a5, double a6, int a7) asm("_ZN2cv11sepFilter2DERKNS_11_InputArrayERKNS_12_OutputArrayEiS2_S2_NS_6Point_IiEEdi");
void w68_sepFilter2D(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::_InputArray const& a3, cv::_InputArray const& a4, cv::Point_<int> a5, double a6, int a7){ REAL("_ZN2cv11sepFilter2DERKNS_11_InputArrayERKNS_12_OutputArrayEiS2_S2_NS_6Point_IiEEdi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, cv::_InputArray const&, cv::_InputArray const&, cv::Point_<int>, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7); in(a0); Out o1(a1); in(a3); in(a4); real(a0, a1, a2, a3, a4, a5, a6, a7); o1.done(); }
void w69_GaussianBlur(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> a2, double a3, double a4, int a5) asm("_ZN2cv12GaussianBlurERKNS_11_InputArrayERKNS_12_OutputArrayENS_5Size_IiEEddi");
void w69_GaussianBlur(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> a2, double a3, double a4, int a5){ REAL("_ZN2cv12GaussianBlurERKNS_11_InputArrayERKNS_12_OutputArrayENS_5Size_IiEEddi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::Size_<int>, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5); o1.done(); }
cv::Rect w70_boundingRect(cv::_InputArray const& a0) asm("_ZN2cv12boundingRectERKNS_11_InputArrayE");
cv::Rect w70_boundingRect(cv::_InputArray const& a0){ REAL("_ZN2cv12boundingRectERKNS_11_InputArrayE",cv::Rect(*)(cv::_InputArray const&)); Guard g; if(!g.top) return real(a0); in(a0); auto r=real(a0); return r; }
void w71_drawContours(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, int a2, cv::Scalar_<double> const& a3, int a4, int a5, cv::_InputArray const& a6, int a7, cv::Point_<int> a8) asm("_ZN2cv12drawContoursERKNS_17_InputOutputArrayERKNS_11_InputArrayEiRKNS_7Scalar_IdEEiiS5_iNS_6Point_IiEE");
void w71_drawContours(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, int a2, cv::Scalar_<double> const& a3, int a4, int a5, cv::_InputArray const& a6, int a7, cv::Point_<int> a8){ REAL("_ZN2cv12drawContoursERKNS_17_InputOutputArrayERKNS_11_InputArrayEiRKNS_7Scalar_IdEEiiS5_iNS_6Point_IiEE",void(*)(cv::_InputOutputArray const&, cv::_InputArray const&, int, cv::Scalar_<double> const&, int, int, cv::_InputArray const&, int, cv::Point_<int>)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7, a8); in(a0); Out o0(a0); in(a1); in(a6); real(a0, a1, a2, a3, a4, a5, a6, a7, a8); o0.done(); }
void w72_equalizeHist(cv::_InputArray const& a0, cv::_OutputArray const& a1) asm("_ZN2cv12equalizeHistERKNS_11_InputArrayERKNS_12_OutputArrayE");
void w72_equalizeHist(cv::_InputArray const& a0, cv::_OutputArray const& a1){ REAL("_ZN2cv12equalizeHistERKNS_11_InputArrayERKNS_12_OutputArrayE",void(*)(cv::_InputArray const&, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1); in(a0); Out o1(a1); real(a0, a1); o1.done(); }
void w73_findContours(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, int a3, int a4, cv::Point_<int> a5) asm("_ZN2cv12findContoursERKNS_11_InputArrayERKNS_12_OutputArrayES5_iiNS_6Point_IiEE");
void w73_findContours(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, int a3, int a4, cv::Point_<int> a5){ REAL("_ZN2cv12findContoursERKNS_11_InputArrayERKNS_12_OutputArrayES5_iiNS_6Point_IiEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, int, int, cv::Point_<int>)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); Out o2(a2); real(a0, a1, a2, a3, a4, a5); o1.done(); o2.done(); }
void w74_findContours(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, cv::Point_<int> a4) asm("_ZN2cv12findContoursERKNS_11_InputArrayERKNS_12_OutputArrayEiiNS_6Point_IiEE");
void w74_findContours(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, cv::Point_<int> a4){ REAL("_ZN2cv12findContoursERKNS_11_InputArrayERKNS_12_OutputArrayEiiNS_6Point_IiEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, cv::Point_<int>)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4); o1.done(); }
void w75_morphologyEx(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::_InputArray const& a3, cv::Point_<int> a4, int a5, int a6, cv::Scalar_<double> const& a7) asm("_ZN2cv12morphologyExERKNS_11_InputArrayERKNS_12_OutputArrayEiS2_NS_6Point_IiEEiiRKNS_7Scalar_IdEE");
void w75_morphologyEx(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::_InputArray const& a3, cv::Point_<int> a4, int a5, int a6, cv::Scalar_<double> const& a7){ REAL("_ZN2cv12morphologyExERKNS_11_InputArrayERKNS_12_OutputArrayEiS2_NS_6Point_IiEEiiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, cv::_InputArray const&, cv::Point_<int>, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7); in(a0); Out o1(a1); in(a3); real(a0, a1, a2, a3, a4, a5, a6, a7); o1.done(); }
void w76_sqrBoxFilter(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::Size_<int> a3, cv::Point_<int> a4, bool a5, int a6) asm("_ZN2cv12sqrBoxFilterERKNS_11_InputArrayERKNS_12_OutputArrayEiNS_5Size_IiEENS_6Point_IiEEbi");
void w76_sqrBoxFilter(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::Size_<int> a3, cv::Point_<int> a4, bool a5, int a6){ REAL("_ZN2cv12sqrBoxFilterERKNS_11_InputArrayERKNS_12_OutputArrayEiNS_5Size_IiEENS_6Point_IiEEbi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, cv::Size_<int>, cv::Point_<int>, bool, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w77_applyColorMap(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv13applyColorMapERKNS_11_InputArrayERKNS_12_OutputArrayES2_");
void w77_applyColorMap(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv13applyColorMapERKNS_11_InputArrayERKNS_12_OutputArrayES2_",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); in(a2); real(a0, a1, a2); o1.done(); }
void w78_applyColorMap(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv13applyColorMapERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w78_applyColorMap(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv13applyColorMapERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w79_matchTemplate(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, int a3, cv::_InputArray const& a4) asm("_ZN2cv13matchTemplateERKNS_11_InputArrayES2_RKNS_12_OutputArrayEiS2_");
void w79_matchTemplate(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, int a3, cv::_InputArray const& a4){ REAL("_ZN2cv13matchTemplateERKNS_11_InputArrayES2_RKNS_12_OutputArrayEiS2_",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, int, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); in(a1); Out o2(a2); in(a4); real(a0, a1, a2, a3, a4); o2.done(); }
void w80_bilateralFilter(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, double a3, double a4, int a5) asm("_ZN2cv15bilateralFilterERKNS_11_InputArrayERKNS_12_OutputArrayEiddi");
void w80_bilateralFilter(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, double a3, double a4, int a5){ REAL("_ZN2cv15bilateralFilterERKNS_11_InputArrayERKNS_12_OutputArrayEiddi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5); o1.done(); }
void w81_warpPerspective(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Size_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6) asm("_ZN2cv15warpPerspectiveERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_5Size_IiEEiiRKNS_7Scalar_IdEE");
void w81_warpPerspective(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Size_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6){ REAL("_ZN2cv15warpPerspectiveERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_5Size_IiEEiiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, cv::Size_<int>, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); in(a2); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w82_accumulateSquare(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, cv::_InputArray const& a2) asm("_ZN2cv16accumulateSquareERKNS_11_InputArrayERKNS_17_InputOutputArrayES2_");
void w82_accumulateSquare(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, cv::_InputArray const& a2){ REAL("_ZN2cv16accumulateSquareERKNS_11_InputArrayERKNS_17_InputOutputArrayES2_",void(*)(cv::_InputArray const&, cv::_InputOutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); in(a1); Out o1(a1); in(a2); real(a0, a1, a2); o1.done(); }
void w83_accumulateProduct(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_InputOutputArray const& a2, cv::_InputArray const& a3) asm("_ZN2cv17accumulateProductERKNS_11_InputArrayES2_RKNS_17_InputOutputArrayES2_");
void w83_accumulateProduct(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_InputOutputArray const& a2, cv::_InputArray const& a3){ REAL("_ZN2cv17accumulateProductERKNS_11_InputArrayES2_RKNS_17_InputOutputArrayES2_",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_InputOutputArray const&, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); in(a2); Out o2(a2); in(a3); real(a0, a1, a2, a3); o2.done(); }
void w84_adaptiveThreshold(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, int a3, int a4, int a5, double a6) asm("_ZN2cv17adaptiveThresholdERKNS_11_InputArrayERKNS_12_OutputArrayEdiiid");
void w84_adaptiveThreshold(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, int a3, int a4, int a5, double a6){ REAL("_ZN2cv17adaptiveThresholdERKNS_11_InputArrayERKNS_12_OutputArrayEdiiid",void(*)(cv::_InputArray const&, cv::_OutputArray const&, double, int, int, int, double)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w85_distanceTransform(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, int a3, int a4, int a5) asm("_ZN2cv17distanceTransformERKNS_11_InputArrayERKNS_12_OutputArrayES5_iii");
void w85_distanceTransform(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, int a3, int a4, int a5){ REAL("_ZN2cv17distanceTransformERKNS_11_InputArrayERKNS_12_OutputArrayES5_iii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); Out o2(a2); real(a0, a1, a2, a3, a4, a5); o1.done(); o2.done(); }
void w86_distanceTransform(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4) asm("_ZN2cv17distanceTransformERKNS_11_InputArrayERKNS_12_OutputArrayEiii");
void w86_distanceTransform(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4){ REAL("_ZN2cv17distanceTransformERKNS_11_InputArrayERKNS_12_OutputArrayEiii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4); o1.done(); }
void w87_accumulateWeighted(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, double a2, cv::_InputArray const& a3) asm("_ZN2cv18accumulateWeightedERKNS_11_InputArrayERKNS_17_InputOutputArrayEdS2_");
void w87_accumulateWeighted(cv::_InputArray const& a0, cv::_InputOutputArray const& a1, double a2, cv::_InputArray const& a3){ REAL("_ZN2cv18accumulateWeightedERKNS_11_InputArrayERKNS_17_InputOutputArrayEdS2_",void(*)(cv::_InputArray const&, cv::_InputOutputArray const&, double, cv::_InputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); in(a1); Out o1(a1); in(a3); real(a0, a1, a2, a3); o1.done(); }
int w88_connectedComponents(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3) asm("_ZN2cv19connectedComponentsERKNS_11_InputArrayERKNS_12_OutputArrayEii");
int w88_connectedComponents(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3){ REAL("_ZN2cv19connectedComponentsERKNS_11_InputArrayERKNS_12_OutputArrayEii",int(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); auto r=real(a0, a1, a2, a3); o1.done(); return r; }
int w89_connectedComponents(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4) asm("_ZN2cv19connectedComponentsERKNS_11_InputArrayERKNS_12_OutputArrayEiii");
int w89_connectedComponents(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4){ REAL("_ZN2cv19connectedComponentsERKNS_11_InputArrayERKNS_12_OutputArrayEiii",int(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); auto r=real(a0, a1, a2, a3, a4); o1.done(); return r; }
float w90_EMD(cv::_InputArray const& a0, cv::_InputArray const& a1, int a2, cv::_InputArray const& a3, float* a4, cv::_OutputArray const& a5) asm("_ZN2cv3EMDERKNS_11_InputArrayES2_iS2_PfRKNS_12_OutputArrayE");
float w90_EMD(cv::_InputArray const& a0, cv::_InputArray const& a1, int a2, cv::_InputArray const& a3, float* a4, cv::_OutputArray const& a5){ REAL("_ZN2cv3EMDERKNS_11_InputArrayES2_iS2_PfRKNS_12_OutputArrayE",float(*)(cv::_InputArray const&, cv::_InputArray const&, int, cv::_InputArray const&, float*, cv::_OutputArray const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); in(a1); in(a3); Out o5(a5); auto r=real(a0, a1, a2, a3, a4, a5); o5.done(); return r; }
void w91_blur(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> a2, cv::Point_<int> a3, int a4) asm("_ZN2cv4blurERKNS_11_InputArrayERKNS_12_OutputArrayENS_5Size_IiEENS_6Point_IiEEi");
void w91_blur(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> a2, cv::Point_<int> a3, int a4){ REAL("_ZN2cv4blurERKNS_11_InputArrayERKNS_12_OutputArrayENS_5Size_IiEENS_6Point_IiEEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::Size_<int>, cv::Point_<int>, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4); o1.done(); }
void w92_line(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Point_<int> a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6) asm("_ZN2cv4lineERKNS_17_InputOutputArrayENS_6Point_IiEES4_RKNS_7Scalar_IdEEiii");
void w92_line(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Point_<int> a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6){ REAL("_ZN2cv4lineERKNS_17_InputOutputArrayENS_6Point_IiEES4_RKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::Point_<int>, cv::Point_<int>, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6); o0.done(); }
void w93_Canny(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, double a3, int a4, bool a5) asm("_ZN2cv5CannyERKNS_11_InputArrayERKNS_12_OutputArrayEddib");
void w93_Canny(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, double a3, int a4, bool a5){ REAL("_ZN2cv5CannyERKNS_11_InputArrayERKNS_12_OutputArrayEddib",void(*)(cv::_InputArray const&, cv::_OutputArray const&, double, double, int, bool)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5); o1.done(); }
void w94_Canny(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, double a3, double a4, bool a5) asm("_ZN2cv5CannyERKNS_11_InputArrayES2_RKNS_12_OutputArrayEddb");
void w94_Canny(cv::_InputArray const& a0, cv::_InputArray const& a1, cv::_OutputArray const& a2, double a3, double a4, bool a5){ REAL("_ZN2cv5CannyERKNS_11_InputArrayES2_RKNS_12_OutputArrayEddb",void(*)(cv::_InputArray const&, cv::_InputArray const&, cv::_OutputArray const&, double, double, bool)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); in(a1); Out o2(a2); real(a0, a1, a2, a3, a4, a5); o2.done(); }
void w95_Sobel(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4, int a5, double a6, double a7, int a8) asm("_ZN2cv5SobelERKNS_11_InputArrayERKNS_12_OutputArrayEiiiiddi");
void w95_Sobel(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4, int a5, double a6, double a7, int a8){ REAL("_ZN2cv5SobelERKNS_11_InputArrayERKNS_12_OutputArrayEiiiiddi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, int, int, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7, a8); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6, a7, a8); o1.done(); }
void w96_erode(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Point_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6) asm("_ZN2cv5erodeERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_6Point_IiEEiiRKNS_7Scalar_IdEE");
void w96_erode(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Point_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6){ REAL("_ZN2cv5erodeERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_6Point_IiEEiiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, cv::Point_<int>, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); in(a2); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w97_pyrUp(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> const& a2, int a3) asm("_ZN2cv5pyrUpERKNS_11_InputArrayERKNS_12_OutputArrayERKNS_5Size_IiEEi");
void w97_pyrUp(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> const& a2, int a3){ REAL("_ZN2cv5pyrUpERKNS_11_InputArrayERKNS_12_OutputArrayERKNS_5Size_IiEEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::Size_<int> const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); real(a0, a1, a2, a3); o1.done(); }
void w98_remap(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::_InputArray const& a3, int a4, int a5, cv::Scalar_<double> const& a6) asm("_ZN2cv5remapERKNS_11_InputArrayERKNS_12_OutputArrayES2_S2_iiRKNS_7Scalar_IdEE");
void w98_remap(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::_InputArray const& a3, int a4, int a5, cv::Scalar_<double> const& a6){ REAL("_ZN2cv5remapERKNS_11_InputArrayERKNS_12_OutputArrayES2_S2_iiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, cv::_InputArray const&, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); in(a2); in(a3); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w99_Scharr(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4, double a5, double a6, int a7) asm("_ZN2cv6ScharrERKNS_11_InputArrayERKNS_12_OutputArrayEiiiddi");
void w99_Scharr(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, int a4, double a5, double a6, int a7){ REAL("_ZN2cv6ScharrERKNS_11_InputArrayERKNS_12_OutputArrayEiiiddi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, int, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6, a7); o1.done(); }
void w100_circle(cv::_InputOutputArray const& a0, cv::Point_<int> a1, int a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6) asm("_ZN2cv6circleERKNS_17_InputOutputArrayENS_6Point_IiEEiRKNS_7Scalar_IdEEiii");
void w100_circle(cv::_InputOutputArray const& a0, cv::Point_<int> a1, int a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6){ REAL("_ZN2cv6circleERKNS_17_InputOutputArrayENS_6Point_IiEEiRKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::Point_<int>, int, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6); o0.done(); }
void w101_dilate(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Point_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6) asm("_ZN2cv6dilateERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_6Point_IiEEiiRKNS_7Scalar_IdEE");
void w101_dilate(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_InputArray const& a2, cv::Point_<int> a3, int a4, int a5, cv::Scalar_<double> const& a6){ REAL("_ZN2cv6dilateERKNS_11_InputArrayERKNS_12_OutputArrayES2_NS_6Point_IiEEiiRKNS_7Scalar_IdEE",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_InputArray const&, cv::Point_<int>, int, int, cv::Scalar_<double> const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); in(a2); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w102_resize(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> a2, double a3, double a4, int a5) asm("_ZN2cv6resizeERKNS_11_InputArrayERKNS_12_OutputArrayENS_5Size_IiEEddi");
void w102_resize(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> a2, double a3, double a4, int a5){ REAL("_ZN2cv6resizeERKNS_11_InputArrayERKNS_12_OutputArrayENS_5Size_IiEEddi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::Size_<int>, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5); o1.done(); }
void w103_ellipse(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Size_<int> a2, double a3, double a4, double a5, cv::Scalar_<double> const& a6, int a7, int a8, int a9) asm("_ZN2cv7ellipseERKNS_17_InputOutputArrayENS_6Point_IiEENS_5Size_IiEEdddRKNS_7Scalar_IdEEiii");
void w103_ellipse(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Size_<int> a2, double a3, double a4, double a5, cv::Scalar_<double> const& a6, int a7, int a8, int a9){ REAL("_ZN2cv7ellipseERKNS_17_InputOutputArrayENS_6Point_IiEENS_5Size_IiEEdddRKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::Point_<int>, cv::Size_<int>, double, double, double, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9); o0.done(); }
void w104_ellipse(cv::_InputOutputArray const& a0, cv::RotatedRect const& a1, cv::Scalar_<double> const& a2, int a3, int a4) asm("_ZN2cv7ellipseERKNS_17_InputOutputArrayERKNS_11RotatedRectERKNS_7Scalar_IdEEii");
void w104_ellipse(cv::_InputOutputArray const& a0, cv::RotatedRect const& a1, cv::Scalar_<double> const& a2, int a3, int a4){ REAL("_ZN2cv7ellipseERKNS_17_InputOutputArrayERKNS_11RotatedRectERKNS_7Scalar_IdEEii",void(*)(cv::_InputOutputArray const&, cv::RotatedRect const&, cv::Scalar_<double> const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4); o0.done(); }
void w105_putText(cv::_InputOutputArray const& a0, std::string const& a1, cv::Point_<int> a2, int a3, double a4, cv::Scalar_<double> a5, int a6, int a7, bool a8) asm("_ZN2cv7putTextERKNS_17_InputOutputArrayERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_6Point_IiEEidNS_7Scalar_IdEEiib");
void w105_putText(cv::_InputOutputArray const& a0, std::string const& a1, cv::Point_<int> a2, int a3, double a4, cv::Scalar_<double> a5, int a6, int a7, bool a8){ REAL("_ZN2cv7putTextERKNS_17_InputOutputArrayERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_6Point_IiEEidNS_7Scalar_IdEEiib",void(*)(cv::_InputOutputArray const&, std::string const&, cv::Point_<int>, int, double, cv::Scalar_<double>, int, int, bool)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7, a8); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6, a7, a8); o0.done(); }
void w106_pyrDown(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> const& a2, int a3) asm("_ZN2cv7pyrDownERKNS_11_InputArrayERKNS_12_OutputArrayERKNS_5Size_IiEEi");
void w106_pyrDown(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::Size_<int> const& a2, int a3){ REAL("_ZN2cv7pyrDownERKNS_11_InputArrayERKNS_12_OutputArrayERKNS_5Size_IiEEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::Size_<int> const&, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); real(a0, a1, a2, a3); o1.done(); }
void w107_cvtColor(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3) asm("_ZN2cv8cvtColorERKNS_11_InputArrayERKNS_12_OutputArrayEii");
void w107_cvtColor(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3){ REAL("_ZN2cv8cvtColorERKNS_11_InputArrayERKNS_12_OutputArrayEii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a0); Out o1(a1); real(a0, a1, a2, a3); o1.done(); }
void w108_fillPoly(cv::_InputOutputArray const& a0, cv::Point_<int> const** a1, int const* a2, int a3, cv::Scalar_<double> const& a4, int a5, int a6, cv::Point_<int> a7) asm("_ZN2cv8fillPolyERKNS_17_InputOutputArrayEPPKNS_6Point_IiEEPKiiRKNS_7Scalar_IdEEiiS4_");
void w108_fillPoly(cv::_InputOutputArray const& a0, cv::Point_<int> const** a1, int const* a2, int a3, cv::Scalar_<double> const& a4, int a5, int a6, cv::Point_<int> a7){ REAL("_ZN2cv8fillPolyERKNS_17_InputOutputArrayEPPKNS_6Point_IiEEPKiiRKNS_7Scalar_IdEEiiS4_",void(*)(cv::_InputOutputArray const&, cv::Point_<int> const**, int const*, int, cv::Scalar_<double> const&, int, int, cv::Point_<int>)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6, a7); o0.done(); }
void w109_fillPoly(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, cv::Scalar_<double> const& a2, int a3, int a4, cv::Point_<int> a5) asm("_ZN2cv8fillPolyERKNS_17_InputOutputArrayERKNS_11_InputArrayERKNS_7Scalar_IdEEiiNS_6Point_IiEE");
void w109_fillPoly(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, cv::Scalar_<double> const& a2, int a3, int a4, cv::Point_<int> a5){ REAL("_ZN2cv8fillPolyERKNS_17_InputOutputArrayERKNS_11_InputArrayERKNS_7Scalar_IdEEiiNS_6Point_IiEE",void(*)(cv::_InputOutputArray const&, cv::_InputArray const&, cv::Scalar_<double> const&, int, int, cv::Point_<int>)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o0(a0); in(a1); real(a0, a1, a2, a3, a4, a5); o0.done(); }
void w110_filter2D(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::_InputArray const& a3, cv::Point_<int> a4, double a5, int a6) asm("_ZN2cv8filter2DERKNS_11_InputArrayERKNS_12_OutputArrayEiS2_NS_6Point_IiEEdi");
void w110_filter2D(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::_InputArray const& a3, cv::Point_<int> a4, double a5, int a6){ REAL("_ZN2cv8filter2DERKNS_11_InputArrayERKNS_12_OutputArrayEiS2_NS_6Point_IiEEdi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, cv::_InputArray const&, cv::Point_<int>, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); in(a3); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w111_integral(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, cv::_OutputArray const& a3, int a4, int a5) asm("_ZN2cv8integralERKNS_11_InputArrayERKNS_12_OutputArrayES5_S5_ii");
void w111_integral(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, cv::_OutputArray const& a3, int a4, int a5){ REAL("_ZN2cv8integralERKNS_11_InputArrayERKNS_12_OutputArrayES5_S5_ii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o1(a1); Out o2(a2); Out o3(a3); real(a0, a1, a2, a3, a4, a5); o1.done(); o2.done(); o3.done(); }
void w112_integral(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, int a3, int a4) asm("_ZN2cv8integralERKNS_11_InputArrayERKNS_12_OutputArrayES5_ii");
void w112_integral(cv::_InputArray const& a0, cv::_OutputArray const& a1, cv::_OutputArray const& a2, int a3, int a4){ REAL("_ZN2cv8integralERKNS_11_InputArrayERKNS_12_OutputArrayES5_ii",void(*)(cv::_InputArray const&, cv::_OutputArray const&, cv::_OutputArray const&, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); Out o2(a2); real(a0, a1, a2, a3, a4); o1.done(); o2.done(); }
void w113_integral(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2) asm("_ZN2cv8integralERKNS_11_InputArrayERKNS_12_OutputArrayEi");
void w113_integral(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2){ REAL("_ZN2cv8integralERKNS_11_InputArrayERKNS_12_OutputArrayEi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int)); Guard g; if(!g.top) return real(a0, a1, a2); in(a0); Out o1(a1); real(a0, a1, a2); o1.done(); }
void w114_Laplacian(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, double a4, double a5, int a6) asm("_ZN2cv9LaplacianERKNS_11_InputArrayERKNS_12_OutputArrayEiiddi");
void w114_Laplacian(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, int a3, double a4, double a5, int a6){ REAL("_ZN2cv9LaplacianERKNS_11_InputArrayERKNS_12_OutputArrayEiiddi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, int, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
void w115_boxFilter(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::Size_<int> a3, cv::Point_<int> a4, bool a5, int a6) asm("_ZN2cv9boxFilterERKNS_11_InputArrayERKNS_12_OutputArrayEiNS_5Size_IiEENS_6Point_IiEEbi");
void w115_boxFilter(cv::_InputArray const& a0, cv::_OutputArray const& a1, int a2, cv::Size_<int> a3, cv::Point_<int> a4, bool a5, int a6){ REAL("_ZN2cv9boxFilterERKNS_11_InputArrayERKNS_12_OutputArrayEiNS_5Size_IiEENS_6Point_IiEEbi",void(*)(cv::_InputArray const&, cv::_OutputArray const&, int, cv::Size_<int>, cv::Point_<int>, bool, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o1(a1); real(a0, a1, a2, a3, a4, a5, a6); o1.done(); }
int w116_floodFill(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Scalar_<double> a2, cv::Rect_<int>* a3, cv::Scalar_<double> a4, cv::Scalar_<double> a5, int a6) asm("_ZN2cv9floodFillERKNS_17_InputOutputArrayENS_6Point_IiEENS_7Scalar_IdEEPNS_5Rect_IiEES6_S6_i");
int w116_floodFill(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Scalar_<double> a2, cv::Rect_<int>* a3, cv::Scalar_<double> a4, cv::Scalar_<double> a5, int a6){ REAL("_ZN2cv9floodFillERKNS_17_InputOutputArrayENS_6Point_IiEENS_7Scalar_IdEEPNS_5Rect_IiEES6_S6_i",int(*)(cv::_InputOutputArray const&, cv::Point_<int>, cv::Scalar_<double>, cv::Rect_<int>*, cv::Scalar_<double>, cv::Scalar_<double>, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o0(a0); auto r=real(a0, a1, a2, a3, a4, a5, a6); o0.done(); return r; }
int w117_floodFill(cv::_InputOutputArray const& a0, cv::_InputOutputArray const& a1, cv::Point_<int> a2, cv::Scalar_<double> a3, cv::Rect_<int>* a4, cv::Scalar_<double> a5, cv::Scalar_<double> a6, int a7) asm("_ZN2cv9floodFillERKNS_17_InputOutputArrayES2_NS_6Point_IiEENS_7Scalar_IdEEPNS_5Rect_IiEES6_S6_i");
int w117_floodFill(cv::_InputOutputArray const& a0, cv::_InputOutputArray const& a1, cv::Point_<int> a2, cv::Scalar_<double> a3, cv::Rect_<int>* a4, cv::Scalar_<double> a5, cv::Scalar_<double> a6, int a7){ REAL("_ZN2cv9floodFillERKNS_17_InputOutputArrayES2_NS_6Point_IiEENS_7Scalar_IdEEPNS_5Rect_IiEES6_S6_i",int(*)(cv::_InputOutputArray const&, cv::_InputOutputArray const&, cv::Point_<int>, cv::Scalar_<double>, cv::Rect_<int>*, cv::Scalar_<double>, cv::Scalar_<double>, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7); in(a0); Out o0(a0); in(a1); Out o1(a1); auto r=real(a0, a1, a2, a3, a4, a5, a6, a7); o0.done(); o1.done(); return r; }
void w118_polylines(cv::_InputOutputArray const& a0, cv::Point_<int> const* const* a1, int const* a2, int a3, bool a4, cv::Scalar_<double> const& a5, int a6, int a7, int a8) asm("_ZN2cv9polylinesERKNS_17_InputOutputArrayEPKPKNS_6Point_IiEEPKiibRKNS_7Scalar_IdEEiii");
void w118_polylines(cv::_InputOutputArray const& a0, cv::Point_<int> const* const* a1, int const* a2, int a3, bool a4, cv::Scalar_<double> const& a5, int a6, int a7, int a8){ REAL("_ZN2cv9polylinesERKNS_17_InputOutputArrayEPKPKNS_6Point_IiEEPKiibRKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::Point_<int> const* const*, int const*, int, bool, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6, a7, a8); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6, a7, a8); o0.done(); }
void w119_polylines(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, bool a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6) asm("_ZN2cv9polylinesERKNS_17_InputOutputArrayERKNS_11_InputArrayEbRKNS_7Scalar_IdEEiii");
void w119_polylines(cv::_InputOutputArray const& a0, cv::_InputArray const& a1, bool a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6){ REAL("_ZN2cv9polylinesERKNS_17_InputOutputArrayERKNS_11_InputArrayEbRKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::_InputArray const&, bool, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o0(a0); in(a1); real(a0, a1, a2, a3, a4, a5, a6); o0.done(); }
void w120_rectangle(cv::_InputOutputArray const& a0, cv::Rect_<int> a1, cv::Scalar_<double> const& a2, int a3, int a4, int a5) asm("_ZN2cv9rectangleERKNS_17_InputOutputArrayENS_5Rect_IiEERKNS_7Scalar_IdEEiii");
void w120_rectangle(cv::_InputOutputArray const& a0, cv::Rect_<int> a1, cv::Scalar_<double> const& a2, int a3, int a4, int a5){ REAL("_ZN2cv9rectangleERKNS_17_InputOutputArrayENS_5Rect_IiEERKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::Rect_<int>, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5); o0.done(); }
void w121_rectangle(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Point_<int> a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6) asm("_ZN2cv9rectangleERKNS_17_InputOutputArrayENS_6Point_IiEES4_RKNS_7Scalar_IdEEiii");
void w121_rectangle(cv::_InputOutputArray const& a0, cv::Point_<int> a1, cv::Point_<int> a2, cv::Scalar_<double> const& a3, int a4, int a5, int a6){ REAL("_ZN2cv9rectangleERKNS_17_InputOutputArrayENS_6Point_IiEES4_RKNS_7Scalar_IdEEiii",void(*)(cv::_InputOutputArray const&, cv::Point_<int>, cv::Point_<int>, cv::Scalar_<double> const&, int, int, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4, a5, a6); in(a0); Out o0(a0); real(a0, a1, a2, a3, a4, a5, a6); o0.done(); }
double w122_threshold(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, double a3, int a4) asm("_ZN2cv9thresholdERKNS_11_InputArrayERKNS_12_OutputArrayEddi");
double w122_threshold(cv::_InputArray const& a0, cv::_OutputArray const& a1, double a2, double a3, int a4){ REAL("_ZN2cv9thresholdERKNS_11_InputArrayERKNS_12_OutputArrayEddi",double(*)(cv::_InputArray const&, cv::_OutputArray const&, double, double, int)); Guard g; if(!g.top) return real(a0, a1, a2, a3, a4); in(a0); Out o1(a1); auto r=real(a0, a1, a2, a3, a4); o1.done(); return r; }
bool w123_imwrite(std::string const& a0, cv::_InputArray const& a1, std::vector<int, std::allocator<int> > const& a2) asm("_ZN2cv7imwriteERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERKSt6vectorIiSaIiEE");
bool w123_imwrite(std::string const& a0, cv::_InputArray const& a1, std::vector<int, std::allocator<int> > const& a2){ REAL("_ZN2cv7imwriteERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERKSt6vectorIiSaIiEE",bool(*)(std::string const&, cv::_InputArray const&, std::vector<int, std::allocator<int> > const&)); Guard g; if(!g.top) return real(a0, a1, a2); in(a1); auto r=real(a0, a1, a2); return r; }
bool w124_imencode(std::string const& a0, cv::_InputArray const& a1, std::vector<unsigned char, std::allocator<unsigned char> >& a2, std::vector<int, std::allocator<int> > const& a3) asm("_ZN2cv8imencodeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERSt6vectorIhSaIhEERKSB_IiSaIiEE");
bool w124_imencode(std::string const& a0, cv::_InputArray const& a1, std::vector<unsigned char, std::allocator<unsigned char> >& a2, std::vector<int, std::allocator<int> > const& a3){ REAL("_ZN2cv8imencodeERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKNS_11_InputArrayERSt6vectorIhSaIhEERKSB_IiSaIiEE",bool(*)(std::string const&, cv::_InputArray const&, std::vector<unsigned char, std::allocator<unsigned char> >&, std::vector<int, std::allocator<int> > const&)); Guard g; if(!g.top) return real(a0, a1, a2, a3); in(a1); auto r=real(a0, a1, a2, a3); return r; }
