#pragma once
// argument iteration helpers
#define MC_CAT_(a, b) a ## b
#define MC_CAT(a, b) MC_CAT_(a, b)
#define MC_ARG_N(_1,_2,_3,_4,_5,_6,_7,_8,_9,_10,_11,_12,_13,_14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89,_90,_91,_92,_93,_94,_95,_96,_97,_98,_99,_100,_101,_102,_103,_104,_105,_106,_107,_108,_109,_110,_111,_112,_113,_114,_115,_116,_117,_118,_119,_120,_121,_122,_123,_124,_125,_126,_127,_128,_129,_130,_131,_132,_133,_134,_135,_136,_137,_138,_139,_140,_141,_142,_143,_144,_145,_146,_147,_148,_149,_150,_151,_152,_153,_154,_155,_156,_157,_158,_159,_160,_161,_162,_163,_164,_165,_166,_167,_168,_169,_170,_171,_172,_173,_174,_175,_176,_177,_178,_179,_180,_181,_182,_183,_184,_185,_186,_187,_188,_189,_190,_191,_192,_193,_194,_195,_196,_197,_198,_199,_200,_201,_202,_203,_204,_205,_206,_207,_208,_209,_210,_211,_212,_213,_214,_215,_216,_217,_218,_219,_220,_221,_222,_223,_224,_225,_226,_227,_228,_229,_230,_231,_232,_233,_234,_235,_236,_237,_238,_239,_240,_241,_242,_243,_244,_245,_246,_247,_248,_249,_250,_251,_252,_253,_254,_255,_256,_257,_258,_259,_260,N,...) N
#define MC_NARG(...) MC_ARG_N(__VA_ARGS__,260,259,258,257,256,255,254,253,252,251,250,249,248,247,246,245,244,243,242,241,240,239,238,237,236,235,234,233,232,231,230,229,228,227,226,225,224,223,222,221,220,219,218,217,216,215,214,213,212,211,210,209,208,207,206,205,204,203,202,201,200,199,198,197,196,195,194,193,192,191,190,189,188,187,186,185,184,183,182,181,180,179,178,177,176,175,174,173,172,171,170,169,168,167,166,165,164,163,162,161,160,159,158,157,156,155,154,153,152,151,150,149,148,147,146,145,144,143,142,141,140,139,138,137,136,135,134,133,132,131,130,129,128,127,126,125,124,123,122,121,120,119,118,117,116,115,114,113,112,111,110,109,108,107,106,105,104,103,102,101,100,99,98,97,96,95,94,93,92,91,90,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0)
#define MC_FE_1(f, x) f(x)
#define MC_FE_2(f, x, ...) f(x) MC_FE_1(f, __VA_ARGS__)
#define MC_FE_3(f, x, ...) f(x) MC_FE_2(f, __VA_ARGS__)
#define MC_FE_4(f, x, ...) f(x) MC_FE_3(f, __VA_ARGS__)
#define MC_FE_5(f, x, ...) f(x) MC_FE_4(f, __VA_ARGS__)
#define MC_FE_6(f, x, ...) f(x) MC_FE_5(f, __VA_ARGS__)
#define MC_FE_7(f, x, ...) f(x) MC_FE_6(f, __VA_ARGS__)
#define MC_FE_8(f, x, ...) f(x) MC_FE_7(f, __VA_ARGS__)
#define MC_FE_9(f, x, ...) f(x) MC_FE_8(f, __VA_ARGS__)
#define MC_FE_10(f, x, ...) f(x) MC_FE_9(f, __VA_ARGS__)
#define MC_FE_11(f, x, ...) f(x) MC_FE_10(f, __VA_ARGS__)
#define MC_FE_12(f, x, ...) f(x) MC_FE_11(f, __VA_ARGS__)
#define MC_FE_13(f, x, ...) f(x) MC_FE_12(f, __VA_ARGS__)
#define MC_FE_14(f, x, ...) f(x) MC_FE_13(f, __VA_ARGS__)
#define MC_FE_15(f, x, ...) f(x) MC_FE_14(f, __VA_ARGS__)
#define MC_FE_16(f, x, ...) f(x) MC_FE_15(f, __VA_ARGS__)
#define MC_FE_17(f, x, ...) f(x) MC_FE_16(f, __VA_ARGS__)
#define MC_FE_18(f, x, ...) f(x) MC_FE_17(f, __VA_ARGS__)
#define MC_FE_19(f, x, ...) f(x) MC_FE_18(f, __VA_ARGS__)
#define MC_FE_20(f, x, ...) f(x) MC_FE_19(f, __VA_ARGS__)
#define MC_FE_21(f, x, ...) f(x) MC_FE_20(f, __VA_ARGS__)
#define MC_FE_22(f, x, ...) f(x) MC_FE_21(f, __VA_ARGS__)
#define MC_FE_23(f, x, ...) f(x) MC_FE_22(f, __VA_ARGS__)
#define MC_FE_24(f, x, ...) f(x) MC_FE_23(f, __VA_ARGS__)
#define MC_FE_25(f, x, ...) f(x) MC_FE_24(f, __VA_ARGS__)
#define MC_FE_26(f, x, ...) f(x) MC_FE_25(f, __VA_ARGS__)
#define MC_FE_27(f, x, ...) f(x) MC_FE_26(f, __VA_ARGS__)
#define MC_FE_28(f, x, ...) f(x) MC_FE_27(f, __VA_ARGS__)
#define MC_FE_29(f, x, ...) f(x) MC_FE_28(f, __VA_ARGS__)
#define MC_FE_30(f, x, ...) f(x) MC_FE_29(f, __VA_ARGS__)
#define MC_FE_31(f, x, ...) f(x) MC_FE_30(f, __VA_ARGS__)
#define MC_FE_32(f, x, ...) f(x) MC_FE_31(f, __VA_ARGS__)
#define MC_FE_33(f, x, ...) f(x) MC_FE_32(f, __VA_ARGS__)
#define MC_FE_34(f, x, ...) f(x) MC_FE_33(f, __VA_ARGS__)
#define MC_FE_35(f, x, ...) f(x) MC_FE_34(f, __VA_ARGS__)
#define MC_FE_36(f, x, ...) f(x) MC_FE_35(f, __VA_ARGS__)
#define MC_FE_37(f, x, ...) f(x) MC_FE_36(f, __VA_ARGS__)
#define MC_FE_38(f, x, ...) f(x) MC_FE_37(f, __VA_ARGS__)
#define MC_FE_39(f, x, ...) f(x) MC_FE_38(f, __VA_ARGS__)
#define MC_FE_40(f, x, ...) f(x) MC_FE_39(f, __VA_ARGS__)
#define MC_FE_41(f, x, ...) f(x) MC_FE_40(f, __VA_ARGS__)
#define MC_FE_42(f, x, ...) f(x) MC_FE_41(f, __VA_ARGS__)
#define MC_FE_43(f, x, ...) f(x) MC_FE_42(f, __VA_ARGS__)
#define MC_FE_44(f, x, ...) f(x) MC_FE_43(f, __VA_ARGS__)
#define MC_FE_45(f, x, ...) f(x) MC_FE_44(f, __VA_ARGS__)
#define MC_FE_46(f, x, ...) f(x) MC_FE_45(f, __VA_ARGS__)
#define MC_FE_47(f, x, ...) f(x) MC_FE_46(f, __VA_ARGS__)
#define MC_FE_48(f, x, ...) f(x) MC_FE_47(f, __VA_ARGS__)
#define MC_FE_49(f, x, ...) f(x) MC_FE_48(f, __VA_ARGS__)
#define MC_FE_50(f, x, ...) f(x) MC_FE_49(f, __VA_ARGS__)
#define MC_FE_51(f, x, ...) f(x) MC_FE_50(f, __VA_ARGS__)
#define MC_FE_52(f, x, ...) f(x) MC_FE_51(f, __VA_ARGS__)
#define MC_FE_53(f, x, ...) f(x) MC_FE_52(f, __VA_ARGS__)
#define MC_FE_54(f, x, ...) f(x) MC_FE_53(f, __VA_ARGS__)
#define MC_FE_55(f, x, ...) f(x) MC_FE_54(f, __VA_ARGS__)
#define MC_FE_56(f, x, ...) f(x) MC_FE_55(f, __VA_ARGS__)
#define MC_FE_57(f, x, ...) f(x) MC_FE_56(f, __VA_ARGS__)
#define MC_FE_58(f, x, ...) f(x) MC_FE_57(f, __VA_ARGS__)
#define MC_FE_59(f, x, ...) f(x) MC_FE_58(f, __VA_ARGS__)
#define MC_FE_60(f, x, ...) f(x) MC_FE_59(f, __VA_ARGS__)
#define MC_FE_61(f, x, ...) f(x) MC_FE_60(f, __VA_ARGS__)
#define MC_FE_62(f, x, ...) f(x) MC_FE_61(f, __VA_ARGS__)
#define MC_FE_63(f, x, ...) f(x) MC_FE_62(f, __VA_ARGS__)
#define MC_FE_64(f, x, ...) f(x) MC_FE_63(f, __VA_ARGS__)
#define MC_FE_65(f, x, ...) f(x) MC_FE_64(f, __VA_ARGS__)
#define MC_FE_66(f, x, ...) f(x) MC_FE_65(f, __VA_ARGS__)
#define MC_FE_67(f, x, ...) f(x) MC_FE_66(f, __VA_ARGS__)
#define MC_FE_68(f, x, ...) f(x) MC_FE_67(f, __VA_ARGS__)
#define MC_FE_69(f, x, ...) f(x) MC_FE_68(f, __VA_ARGS__)
#define MC_FE_70(f, x, ...) f(x) MC_FE_69(f, __VA_ARGS__)
#define MC_FE_71(f, x, ...) f(x) MC_FE_70(f, __VA_ARGS__)
#define MC_FE_72(f, x, ...) f(x) MC_FE_71(f, __VA_ARGS__)
#define MC_FE_73(f, x, ...) f(x) MC_FE_72(f, __VA_ARGS__)
#define MC_FE_74(f, x, ...) f(x) MC_FE_73(f, __VA_ARGS__)
#define MC_FE_75(f, x, ...) f(x) MC_FE_74(f, __VA_ARGS__)
#define MC_FE_76(f, x, ...) f(x) MC_FE_75(f, __VA_ARGS__)
#define MC_FE_77(f, x, ...) f(x) MC_FE_76(f, __VA_ARGS__)
#define MC_FE_78(f, x, ...) f(x) MC_FE_77(f, __VA_ARGS__)
#define MC_FE_79(f, x, ...) f(x) MC_FE_78(f, __VA_ARGS__)
#define MC_FE_80(f, x, ...) f(x) MC_FE_79(f, __VA_ARGS__)
#define MC_FE_81(f, x, ...) f(x) MC_FE_80(f, __VA_ARGS__)
#define MC_FE_82(f, x, ...) f(x) MC_FE_81(f, __VA_ARGS__)
#define MC_FE_83(f, x, ...) f(x) MC_FE_82(f, __VA_ARGS__)
#define MC_FE_84(f, x, ...) f(x) MC_FE_83(f, __VA_ARGS__)
#define MC_FE_85(f, x, ...) f(x) MC_FE_84(f, __VA_ARGS__)
#define MC_FE_86(f, x, ...) f(x) MC_FE_85(f, __VA_ARGS__)
#define MC_FE_87(f, x, ...) f(x) MC_FE_86(f, __VA_ARGS__)
#define MC_FE_88(f, x, ...) f(x) MC_FE_87(f, __VA_ARGS__)
#define MC_FE_89(f, x, ...) f(x) MC_FE_88(f, __VA_ARGS__)
#define MC_FE_90(f, x, ...) f(x) MC_FE_89(f, __VA_ARGS__)
#define MC_FE_91(f, x, ...) f(x) MC_FE_90(f, __VA_ARGS__)
#define MC_FE_92(f, x, ...) f(x) MC_FE_91(f, __VA_ARGS__)
#define MC_FE_93(f, x, ...) f(x) MC_FE_92(f, __VA_ARGS__)
#define MC_FE_94(f, x, ...) f(x) MC_FE_93(f, __VA_ARGS__)
#define MC_FE_95(f, x, ...) f(x) MC_FE_94(f, __VA_ARGS__)
#define MC_FE_96(f, x, ...) f(x) MC_FE_95(f, __VA_ARGS__)
#define MC_FE_97(f, x, ...) f(x) MC_FE_96(f, __VA_ARGS__)
#define MC_FE_98(f, x, ...) f(x) MC_FE_97(f, __VA_ARGS__)
#define MC_FE_99(f, x, ...) f(x) MC_FE_98(f, __VA_ARGS__)
#define MC_FE_100(f, x, ...) f(x) MC_FE_99(f, __VA_ARGS__)
#define MC_FE_101(f, x, ...) f(x) MC_FE_100(f, __VA_ARGS__)
#define MC_FE_102(f, x, ...) f(x) MC_FE_101(f, __VA_ARGS__)
#define MC_FE_103(f, x, ...) f(x) MC_FE_102(f, __VA_ARGS__)
#define MC_FE_104(f, x, ...) f(x) MC_FE_103(f, __VA_ARGS__)
#define MC_FE_105(f, x, ...) f(x) MC_FE_104(f, __VA_ARGS__)
#define MC_FE_106(f, x, ...) f(x) MC_FE_105(f, __VA_ARGS__)
#define MC_FE_107(f, x, ...) f(x) MC_FE_106(f, __VA_ARGS__)
#define MC_FE_108(f, x, ...) f(x) MC_FE_107(f, __VA_ARGS__)
#define MC_FE_109(f, x, ...) f(x) MC_FE_108(f, __VA_ARGS__)
#define MC_FE_110(f, x, ...) f(x) MC_FE_109(f, __VA_ARGS__)
#define MC_FE_111(f, x, ...) f(x) MC_FE_110(f, __VA_ARGS__)
#define MC_FE_112(f, x, ...) f(x) MC_FE_111(f, __VA_ARGS__)
#define MC_FE_113(f, x, ...) f(x) MC_FE_112(f, __VA_ARGS__)
#define MC_FE_114(f, x, ...) f(x) MC_FE_113(f, __VA_ARGS__)
#define MC_FE_115(f, x, ...) f(x) MC_FE_114(f, __VA_ARGS__)
#define MC_FE_116(f, x, ...) f(x) MC_FE_115(f, __VA_ARGS__)
#define MC_FE_117(f, x, ...) f(x) MC_FE_116(f, __VA_ARGS__)
#define MC_FE_118(f, x, ...) f(x) MC_FE_117(f, __VA_ARGS__)
#define MC_FE_119(f, x, ...) f(x) MC_FE_118(f, __VA_ARGS__)
#define MC_FE_120(f, x, ...) f(x) MC_FE_119(f, __VA_ARGS__)
#define MC_FE_121(f, x, ...) f(x) MC_FE_120(f, __VA_ARGS__)
#define MC_FE_122(f, x, ...) f(x) MC_FE_121(f, __VA_ARGS__)
#define MC_FE_123(f, x, ...) f(x) MC_FE_122(f, __VA_ARGS__)
#define MC_FE_124(f, x, ...) f(x) MC_FE_123(f, __VA_ARGS__)
#define MC_FE_125(f, x, ...) f(x) MC_FE_124(f, __VA_ARGS__)
#define MC_FE_126(f, x, ...) f(x) MC_FE_125(f, __VA_ARGS__)
#define MC_FE_127(f, x, ...) f(x) MC_FE_126(f, __VA_ARGS__)
#define MC_FE_128(f, x, ...) f(x) MC_FE_127(f, __VA_ARGS__)
#define MC_FE_129(f, x, ...) f(x) MC_FE_128(f, __VA_ARGS__)
#define MC_FE_130(f, x, ...) f(x) MC_FE_129(f, __VA_ARGS__)
#define MC_FE_131(f, x, ...) f(x) MC_FE_130(f, __VA_ARGS__)
#define MC_FE_132(f, x, ...) f(x) MC_FE_131(f, __VA_ARGS__)
#define MC_FE_133(f, x, ...) f(x) MC_FE_132(f, __VA_ARGS__)
#define MC_FE_134(f, x, ...) f(x) MC_FE_133(f, __VA_ARGS__)
#define MC_FE_135(f, x, ...) f(x) MC_FE_134(f, __VA_ARGS__)
#define MC_FE_136(f, x, ...) f(x) MC_FE_135(f, __VA_ARGS__)
#define MC_FE_137(f, x, ...) f(x) MC_FE_136(f, __VA_ARGS__)
#define MC_FE_138(f, x, ...) f(x) MC_FE_137(f, __VA_ARGS__)
#define MC_FE_139(f, x, ...) f(x) MC_FE_138(f, __VA_ARGS__)
#define MC_FE_140(f, x, ...) f(x) MC_FE_139(f, __VA_ARGS__)
#define MC_FE_141(f, x, ...) f(x) MC_FE_140(f, __VA_ARGS__)
#define MC_FE_142(f, x, ...) f(x) MC_FE_141(f, __VA_ARGS__)
#define MC_FE_143(f, x, ...) f(x) MC_FE_142(f, __VA_ARGS__)
#define MC_FE_144(f, x, ...) f(x) MC_FE_143(f, __VA_ARGS__)
#define MC_FE_145(f, x, ...) f(x) MC_FE_144(f, __VA_ARGS__)
#define MC_FE_146(f, x, ...) f(x) MC_FE_145(f, __VA_ARGS__)
#define MC_FE_147(f, x, ...) f(x) MC_FE_146(f, __VA_ARGS__)
#define MC_FE_148(f, x, ...) f(x) MC_FE_147(f, __VA_ARGS__)
#define MC_FE_149(f, x, ...) f(x) MC_FE_148(f, __VA_ARGS__)
#define MC_FE_150(f, x, ...) f(x) MC_FE_149(f, __VA_ARGS__)
#define MC_FE_151(f, x, ...) f(x) MC_FE_150(f, __VA_ARGS__)
#define MC_FE_152(f, x, ...) f(x) MC_FE_151(f, __VA_ARGS__)
#define MC_FE_153(f, x, ...) f(x) MC_FE_152(f, __VA_ARGS__)
#define MC_FE_154(f, x, ...) f(x) MC_FE_153(f, __VA_ARGS__)
#define MC_FE_155(f, x, ...) f(x) MC_FE_154(f, __VA_ARGS__)
#define MC_FE_156(f, x, ...) f(x) MC_FE_155(f, __VA_ARGS__)
#define MC_FE_157(f, x, ...) f(x) MC_FE_156(f, __VA_ARGS__)
#define MC_FE_158(f, x, ...) f(x) MC_FE_157(f, __VA_ARGS__)
#define MC_FE_159(f, x, ...) f(x) MC_FE_158(f, __VA_ARGS__)
#define MC_FE_160(f, x, ...) f(x) MC_FE_159(f, __VA_ARGS__)
#define MC_FE_161(f, x, ...) f(x) MC_FE_160(f, __VA_ARGS__)
#define MC_FE_162(f, x, ...) f(x) MC_FE_161(f, __VA_ARGS__)
#define MC_FE_163(f, x, ...) f(x) MC_FE_162(f, __VA_ARGS__)
#define MC_FE_164(f, x, ...) f(x) MC_FE_163(f, __VA_ARGS__)
#define MC_FE_165(f, x, ...) f(x) MC_FE_164(f, __VA_ARGS__)
#define MC_FE_166(f, x, ...) f(x) MC_FE_165(f, __VA_ARGS__)
#define MC_FE_167(f, x, ...) f(x) MC_FE_166(f, __VA_ARGS__)
#define MC_FE_168(f, x, ...) f(x) MC_FE_167(f, __VA_ARGS__)
#define MC_FE_169(f, x, ...) f(x) MC_FE_168(f, __VA_ARGS__)
#define MC_FE_170(f, x, ...) f(x) MC_FE_169(f, __VA_ARGS__)
#define MC_FE_171(f, x, ...) f(x) MC_FE_170(f, __VA_ARGS__)
#define MC_FE_172(f, x, ...) f(x) MC_FE_171(f, __VA_ARGS__)
#define MC_FE_173(f, x, ...) f(x) MC_FE_172(f, __VA_ARGS__)
#define MC_FE_174(f, x, ...) f(x) MC_FE_173(f, __VA_ARGS__)
#define MC_FE_175(f, x, ...) f(x) MC_FE_174(f, __VA_ARGS__)
#define MC_FE_176(f, x, ...) f(x) MC_FE_175(f, __VA_ARGS__)
#define MC_FE_177(f, x, ...) f(x) MC_FE_176(f, __VA_ARGS__)
#define MC_FE_178(f, x, ...) f(x) MC_FE_177(f, __VA_ARGS__)
#define MC_FE_179(f, x, ...) f(x) MC_FE_178(f, __VA_ARGS__)
#define MC_FE_180(f, x, ...) f(x) MC_FE_179(f, __VA_ARGS__)
#define MC_FE_181(f, x, ...) f(x) MC_FE_180(f, __VA_ARGS__)
#define MC_FE_182(f, x, ...) f(x) MC_FE_181(f, __VA_ARGS__)
#define MC_FE_183(f, x, ...) f(x) MC_FE_182(f, __VA_ARGS__)
#define MC_FE_184(f, x, ...) f(x) MC_FE_183(f, __VA_ARGS__)
#define MC_FE_185(f, x, ...) f(x) MC_FE_184(f, __VA_ARGS__)
#define MC_FE_186(f, x, ...) f(x) MC_FE_185(f, __VA_ARGS__)
#define MC_FE_187(f, x, ...) f(x) MC_FE_186(f, __VA_ARGS__)
#define MC_FE_188(f, x, ...) f(x) MC_FE_187(f, __VA_ARGS__)
#define MC_FE_189(f, x, ...) f(x) MC_FE_188(f, __VA_ARGS__)
#define MC_FE_190(f, x, ...) f(x) MC_FE_189(f, __VA_ARGS__)
#define MC_FE_191(f, x, ...) f(x) MC_FE_190(f, __VA_ARGS__)
#define MC_FE_192(f, x, ...) f(x) MC_FE_191(f, __VA_ARGS__)
#define MC_FE_193(f, x, ...) f(x) MC_FE_192(f, __VA_ARGS__)
#define MC_FE_194(f, x, ...) f(x) MC_FE_193(f, __VA_ARGS__)
#define MC_FE_195(f, x, ...) f(x) MC_FE_194(f, __VA_ARGS__)
#define MC_FE_196(f, x, ...) f(x) MC_FE_195(f, __VA_ARGS__)
#define MC_FE_197(f, x, ...) f(x) MC_FE_196(f, __VA_ARGS__)
#define MC_FE_198(f, x, ...) f(x) MC_FE_197(f, __VA_ARGS__)
#define MC_FE_199(f, x, ...) f(x) MC_FE_198(f, __VA_ARGS__)
#define MC_FE_200(f, x, ...) f(x) MC_FE_199(f, __VA_ARGS__)
#define MC_FE_201(f, x, ...) f(x) MC_FE_200(f, __VA_ARGS__)
#define MC_FE_202(f, x, ...) f(x) MC_FE_201(f, __VA_ARGS__)
#define MC_FE_203(f, x, ...) f(x) MC_FE_202(f, __VA_ARGS__)
#define MC_FE_204(f, x, ...) f(x) MC_FE_203(f, __VA_ARGS__)
#define MC_FE_205(f, x, ...) f(x) MC_FE_204(f, __VA_ARGS__)
#define MC_FE_206(f, x, ...) f(x) MC_FE_205(f, __VA_ARGS__)
#define MC_FE_207(f, x, ...) f(x) MC_FE_206(f, __VA_ARGS__)
#define MC_FE_208(f, x, ...) f(x) MC_FE_207(f, __VA_ARGS__)
#define MC_FE_209(f, x, ...) f(x) MC_FE_208(f, __VA_ARGS__)
#define MC_FE_210(f, x, ...) f(x) MC_FE_209(f, __VA_ARGS__)
#define MC_FE_211(f, x, ...) f(x) MC_FE_210(f, __VA_ARGS__)
#define MC_FE_212(f, x, ...) f(x) MC_FE_211(f, __VA_ARGS__)
#define MC_FE_213(f, x, ...) f(x) MC_FE_212(f, __VA_ARGS__)
#define MC_FE_214(f, x, ...) f(x) MC_FE_213(f, __VA_ARGS__)
#define MC_FE_215(f, x, ...) f(x) MC_FE_214(f, __VA_ARGS__)
#define MC_FE_216(f, x, ...) f(x) MC_FE_215(f, __VA_ARGS__)
#define MC_FE_217(f, x, ...) f(x) MC_FE_216(f, __VA_ARGS__)
#define MC_FE_218(f, x, ...) f(x) MC_FE_217(f, __VA_ARGS__)
#define MC_FE_219(f, x, ...) f(x) MC_FE_218(f, __VA_ARGS__)
#define MC_FE_220(f, x, ...) f(x) MC_FE_219(f, __VA_ARGS__)
#define MC_FE_221(f, x, ...) f(x) MC_FE_220(f, __VA_ARGS__)
#define MC_FE_222(f, x, ...) f(x) MC_FE_221(f, __VA_ARGS__)
#define MC_FE_223(f, x, ...) f(x) MC_FE_222(f, __VA_ARGS__)
#define MC_FE_224(f, x, ...) f(x) MC_FE_223(f, __VA_ARGS__)
#define MC_FE_225(f, x, ...) f(x) MC_FE_224(f, __VA_ARGS__)
#define MC_FE_226(f, x, ...) f(x) MC_FE_225(f, __VA_ARGS__)
#define MC_FE_227(f, x, ...) f(x) MC_FE_226(f, __VA_ARGS__)
#define MC_FE_228(f, x, ...) f(x) MC_FE_227(f, __VA_ARGS__)
#define MC_FE_229(f, x, ...) f(x) MC_FE_228(f, __VA_ARGS__)
#define MC_FE_230(f, x, ...) f(x) MC_FE_229(f, __VA_ARGS__)
#define MC_FE_231(f, x, ...) f(x) MC_FE_230(f, __VA_ARGS__)
#define MC_FE_232(f, x, ...) f(x) MC_FE_231(f, __VA_ARGS__)
#define MC_FE_233(f, x, ...) f(x) MC_FE_232(f, __VA_ARGS__)
#define MC_FE_234(f, x, ...) f(x) MC_FE_233(f, __VA_ARGS__)
#define MC_FE_235(f, x, ...) f(x) MC_FE_234(f, __VA_ARGS__)
#define MC_FE_236(f, x, ...) f(x) MC_FE_235(f, __VA_ARGS__)
#define MC_FE_237(f, x, ...) f(x) MC_FE_236(f, __VA_ARGS__)
#define MC_FE_238(f, x, ...) f(x) MC_FE_237(f, __VA_ARGS__)
#define MC_FE_239(f, x, ...) f(x) MC_FE_238(f, __VA_ARGS__)
#define MC_FE_240(f, x, ...) f(x) MC_FE_239(f, __VA_ARGS__)
#define MC_FE_241(f, x, ...) f(x) MC_FE_240(f, __VA_ARGS__)
#define MC_FE_242(f, x, ...) f(x) MC_FE_241(f, __VA_ARGS__)
#define MC_FE_243(f, x, ...) f(x) MC_FE_242(f, __VA_ARGS__)
#define MC_FE_244(f, x, ...) f(x) MC_FE_243(f, __VA_ARGS__)
#define MC_FE_245(f, x, ...) f(x) MC_FE_244(f, __VA_ARGS__)
#define MC_FE_246(f, x, ...) f(x) MC_FE_245(f, __VA_ARGS__)
#define MC_FE_247(f, x, ...) f(x) MC_FE_246(f, __VA_ARGS__)
#define MC_FE_248(f, x, ...) f(x) MC_FE_247(f, __VA_ARGS__)
#define MC_FE_249(f, x, ...) f(x) MC_FE_248(f, __VA_ARGS__)
#define MC_FE_250(f, x, ...) f(x) MC_FE_249(f, __VA_ARGS__)
#define MC_FE_251(f, x, ...) f(x) MC_FE_250(f, __VA_ARGS__)
#define MC_FE_252(f, x, ...) f(x) MC_FE_251(f, __VA_ARGS__)
#define MC_FE_253(f, x, ...) f(x) MC_FE_252(f, __VA_ARGS__)
#define MC_FE_254(f, x, ...) f(x) MC_FE_253(f, __VA_ARGS__)
#define MC_FE_255(f, x, ...) f(x) MC_FE_254(f, __VA_ARGS__)
#define MC_FE_256(f, x, ...) f(x) MC_FE_255(f, __VA_ARGS__)
#define MC_FE_257(f, x, ...) f(x) MC_FE_256(f, __VA_ARGS__)
#define MC_FE_258(f, x, ...) f(x) MC_FE_257(f, __VA_ARGS__)
#define MC_FE_259(f, x, ...) f(x) MC_FE_258(f, __VA_ARGS__)
#define MC_FE_260(f, x, ...) f(x) MC_FE_259(f, __VA_ARGS__)
#define MC_FOR_EACH(f, ...) MC_CAT(MC_FE_, MC_NARG(__VA_ARGS__))(f, __VA_ARGS__)
