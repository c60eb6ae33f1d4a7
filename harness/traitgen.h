// one class per number of attributes and macro; written by a loop
struct At1 { double m0 = 0; }; MAKE_ATTRIBUTE_TRAIT(At1, m0);
struct Nm1 { double m0 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm1, "name 0", m0);
struct Cu1 { double m0 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu1, "c-0", std::make_pair(&Cu1::g0, &Cu1::s0));
template <class R, unsigned D> struct Te1 { R m0 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te1<R, D>), (class R, unsigned D), m0);
template <class R, unsigned D> struct Tn1 { R m0 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn1<R, D>), (class R, unsigned D), "name 0", m0);
struct At2 { double m0 = 0; double m1 = 0; }; MAKE_ATTRIBUTE_TRAIT(At2, m0, m1);
struct Nm2 { double m0 = 0; double m1 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm2, "name 0", m0, "name 1", m1);
struct Cu2 { double m0 = 0; double m1 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu2, "c-0", std::make_pair(&Cu2::g0, &Cu2::s0), "c-1", &Cu2::m1);
template <class R, unsigned D> struct Te2 { R m0 = 0; R m1 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te2<R, D>), (class R, unsigned D), m0, m1);
template <class R, unsigned D> struct Tn2 { R m0 = 0; R m1 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn2<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1);
struct At3 { double m0 = 0; double m1 = 0; double m2 = 0; }; MAKE_ATTRIBUTE_TRAIT(At3, m0, m1, m2);
struct Nm3 { double m0 = 0; double m1 = 0; double m2 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm3, "name 0", m0, "name 1", m1, "name 2", m2);
struct Cu3 { double m0 = 0; double m1 = 0; double m2 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu3, "c-0", std::make_pair(&Cu3::g0, &Cu3::s0), "c-1", &Cu3::m1, "c-2", std::make_pair(&Cu3::g2, &Cu3::s2));
template <class R, unsigned D> struct Te3 { R m0 = 0; R m1 = 0; R m2 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te3<R, D>), (class R, unsigned D), m0, m1, m2);
template <class R, unsigned D> struct Tn3 { R m0 = 0; R m1 = 0; R m2 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn3<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2);
struct At4 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; }; MAKE_ATTRIBUTE_TRAIT(At4, m0, m1, m2, m3);
struct Nm4 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm4, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
struct Cu4 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu4, "c-0", std::make_pair(&Cu4::g0, &Cu4::s0), "c-1", &Cu4::m1, "c-2", std::make_pair(&Cu4::g2, &Cu4::s2), "c-3", &Cu4::m3);
template <class R, unsigned D> struct Te4 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te4<R, D>), (class R, unsigned D), m0, m1, m2, m3);
template <class R, unsigned D> struct Tn4 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn4<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3);
struct At5 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; }; MAKE_ATTRIBUTE_TRAIT(At5, m0, m1, m2, m3, m4);
struct Nm5 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm5, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
struct Cu5 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu5, "c-0", std::make_pair(&Cu5::g0, &Cu5::s0), "c-1", &Cu5::m1, "c-2", std::make_pair(&Cu5::g2, &Cu5::s2), "c-3", &Cu5::m3, "c-4", std::make_pair(&Cu5::g4, &Cu5::s4));
template <class R, unsigned D> struct Te5 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te5<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4);
template <class R, unsigned D> struct Tn5 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn5<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4);
struct At6 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; }; MAKE_ATTRIBUTE_TRAIT(At6, m0, m1, m2, m3, m4, m5);
struct Nm6 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm6, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
struct Cu6 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu6, "c-0", std::make_pair(&Cu6::g0, &Cu6::s0), "c-1", &Cu6::m1, "c-2", std::make_pair(&Cu6::g2, &Cu6::s2), "c-3", &Cu6::m3, "c-4", std::make_pair(&Cu6::g4, &Cu6::s4), "c-5", &Cu6::m5);
template <class R, unsigned D> struct Te6 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te6<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5);
template <class R, unsigned D> struct Tn6 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn6<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5);
struct At7 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; }; MAKE_ATTRIBUTE_TRAIT(At7, m0, m1, m2, m3, m4, m5, m6);
struct Nm7 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm7, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
struct Cu7 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu7, "c-0", std::make_pair(&Cu7::g0, &Cu7::s0), "c-1", &Cu7::m1, "c-2", std::make_pair(&Cu7::g2, &Cu7::s2), "c-3", &Cu7::m3, "c-4", std::make_pair(&Cu7::g4, &Cu7::s4), "c-5", &Cu7::m5, "c-6", std::make_pair(&Cu7::g6, &Cu7::s6));
template <class R, unsigned D> struct Te7 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te7<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6);
template <class R, unsigned D> struct Tn7 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn7<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6);
struct At8 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; }; MAKE_ATTRIBUTE_TRAIT(At8, m0, m1, m2, m3, m4, m5, m6, m7);
struct Nm8 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm8, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
struct Cu8 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu8, "c-0", std::make_pair(&Cu8::g0, &Cu8::s0), "c-1", &Cu8::m1, "c-2", std::make_pair(&Cu8::g2, &Cu8::s2), "c-3", &Cu8::m3, "c-4", std::make_pair(&Cu8::g4, &Cu8::s4), "c-5", &Cu8::m5, "c-6", std::make_pair(&Cu8::g6, &Cu8::s6), "c-7", &Cu8::m7);
template <class R, unsigned D> struct Te8 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te8<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7);
template <class R, unsigned D> struct Tn8 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn8<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7);
struct At9 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; }; MAKE_ATTRIBUTE_TRAIT(At9, m0, m1, m2, m3, m4, m5, m6, m7, m8);
struct Nm9 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm9, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
struct Cu9 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu9, "c-0", std::make_pair(&Cu9::g0, &Cu9::s0), "c-1", &Cu9::m1, "c-2", std::make_pair(&Cu9::g2, &Cu9::s2), "c-3", &Cu9::m3, "c-4", std::make_pair(&Cu9::g4, &Cu9::s4), "c-5", &Cu9::m5, "c-6", std::make_pair(&Cu9::g6, &Cu9::s6), "c-7", &Cu9::m7, "c-8", std::make_pair(&Cu9::g8, &Cu9::s8));
template <class R, unsigned D> struct Te9 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te9<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8);
template <class R, unsigned D> struct Tn9 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn9<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8);
struct At10 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; }; MAKE_ATTRIBUTE_TRAIT(At10, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
struct Nm10 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm10, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
struct Cu10 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu10, "c-0", std::make_pair(&Cu10::g0, &Cu10::s0), "c-1", &Cu10::m1, "c-2", std::make_pair(&Cu10::g2, &Cu10::s2), "c-3", &Cu10::m3, "c-4", std::make_pair(&Cu10::g4, &Cu10::s4), "c-5", &Cu10::m5, "c-6", std::make_pair(&Cu10::g6, &Cu10::s6), "c-7", &Cu10::m7, "c-8", std::make_pair(&Cu10::g8, &Cu10::s8), "c-9", &Cu10::m9);
template <class R, unsigned D> struct Te10 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te10<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9);
template <class R, unsigned D> struct Tn10 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn10<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9);
struct At11 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; }; MAKE_ATTRIBUTE_TRAIT(At11, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
struct Nm11 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm11, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
struct Cu11 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu11, "c-0", std::make_pair(&Cu11::g0, &Cu11::s0), "c-1", &Cu11::m1, "c-2", std::make_pair(&Cu11::g2, &Cu11::s2), "c-3", &Cu11::m3, "c-4", std::make_pair(&Cu11::g4, &Cu11::s4), "c-5", &Cu11::m5, "c-6", std::make_pair(&Cu11::g6, &Cu11::s6), "c-7", &Cu11::m7, "c-8", std::make_pair(&Cu11::g8, &Cu11::s8), "c-9", &Cu11::m9, "c-10", std::make_pair(&Cu11::g10, &Cu11::s10));
template <class R, unsigned D> struct Te11 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te11<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10);
template <class R, unsigned D> struct Tn11 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn11<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10);
struct At12 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; }; MAKE_ATTRIBUTE_TRAIT(At12, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
struct Nm12 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm12, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
struct Cu12 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu12, "c-0", std::make_pair(&Cu12::g0, &Cu12::s0), "c-1", &Cu12::m1, "c-2", std::make_pair(&Cu12::g2, &Cu12::s2), "c-3", &Cu12::m3, "c-4", std::make_pair(&Cu12::g4, &Cu12::s4), "c-5", &Cu12::m5, "c-6", std::make_pair(&Cu12::g6, &Cu12::s6), "c-7", &Cu12::m7, "c-8", std::make_pair(&Cu12::g8, &Cu12::s8), "c-9", &Cu12::m9, "c-10", std::make_pair(&Cu12::g10, &Cu12::s10), "c-11", &Cu12::m11);
template <class R, unsigned D> struct Te12 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te12<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11);
template <class R, unsigned D> struct Tn12 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn12<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11);
struct At13 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; }; MAKE_ATTRIBUTE_TRAIT(At13, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
struct Nm13 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm13, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
struct Cu13 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu13, "c-0", std::make_pair(&Cu13::g0, &Cu13::s0), "c-1", &Cu13::m1, "c-2", std::make_pair(&Cu13::g2, &Cu13::s2), "c-3", &Cu13::m3, "c-4", std::make_pair(&Cu13::g4, &Cu13::s4), "c-5", &Cu13::m5, "c-6", std::make_pair(&Cu13::g6, &Cu13::s6), "c-7", &Cu13::m7, "c-8", std::make_pair(&Cu13::g8, &Cu13::s8), "c-9", &Cu13::m9, "c-10", std::make_pair(&Cu13::g10, &Cu13::s10), "c-11", &Cu13::m11, "c-12", std::make_pair(&Cu13::g12, &Cu13::s12));
template <class R, unsigned D> struct Te13 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te13<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12);
template <class R, unsigned D> struct Tn13 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn13<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12);
struct At14 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; }; MAKE_ATTRIBUTE_TRAIT(At14, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
struct Nm14 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm14, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
struct Cu14 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu14, "c-0", std::make_pair(&Cu14::g0, &Cu14::s0), "c-1", &Cu14::m1, "c-2", std::make_pair(&Cu14::g2, &Cu14::s2), "c-3", &Cu14::m3, "c-4", std::make_pair(&Cu14::g4, &Cu14::s4), "c-5", &Cu14::m5, "c-6", std::make_pair(&Cu14::g6, &Cu14::s6), "c-7", &Cu14::m7, "c-8", std::make_pair(&Cu14::g8, &Cu14::s8), "c-9", &Cu14::m9, "c-10", std::make_pair(&Cu14::g10, &Cu14::s10), "c-11", &Cu14::m11, "c-12", std::make_pair(&Cu14::g12, &Cu14::s12), "c-13", &Cu14::m13);
template <class R, unsigned D> struct Te14 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te14<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13);
template <class R, unsigned D> struct Tn14 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn14<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13);
struct At15 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; }; MAKE_ATTRIBUTE_TRAIT(At15, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
struct Nm15 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm15, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
struct Cu15 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } double g14() const { return m14; } void s14(double v) { m14 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu15, "c-0", std::make_pair(&Cu15::g0, &Cu15::s0), "c-1", &Cu15::m1, "c-2", std::make_pair(&Cu15::g2, &Cu15::s2), "c-3", &Cu15::m3, "c-4", std::make_pair(&Cu15::g4, &Cu15::s4), "c-5", &Cu15::m5, "c-6", std::make_pair(&Cu15::g6, &Cu15::s6), "c-7", &Cu15::m7, "c-8", std::make_pair(&Cu15::g8, &Cu15::s8), "c-9", &Cu15::m9, "c-10", std::make_pair(&Cu15::g10, &Cu15::s10), "c-11", &Cu15::m11, "c-12", std::make_pair(&Cu15::g12, &Cu15::s12), "c-13", &Cu15::m13, "c-14", std::make_pair(&Cu15::g14, &Cu15::s14));
template <class R, unsigned D> struct Te15 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te15<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14);
template <class R, unsigned D> struct Tn15 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn15<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14);
struct At16 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; }; MAKE_ATTRIBUTE_TRAIT(At16, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
struct Nm16 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm16, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
struct Cu16 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } double g14() const { return m14; } void s14(double v) { m14 = v; } double g15() const { return m15; } void s15(double v) { m15 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu16, "c-0", std::make_pair(&Cu16::g0, &Cu16::s0), "c-1", &Cu16::m1, "c-2", std::make_pair(&Cu16::g2, &Cu16::s2), "c-3", &Cu16::m3, "c-4", std::make_pair(&Cu16::g4, &Cu16::s4), "c-5", &Cu16::m5, "c-6", std::make_pair(&Cu16::g6, &Cu16::s6), "c-7", &Cu16::m7, "c-8", std::make_pair(&Cu16::g8, &Cu16::s8), "c-9", &Cu16::m9, "c-10", std::make_pair(&Cu16::g10, &Cu16::s10), "c-11", &Cu16::m11, "c-12", std::make_pair(&Cu16::g12, &Cu16::s12), "c-13", &Cu16::m13, "c-14", std::make_pair(&Cu16::g14, &Cu16::s14), "c-15", &Cu16::m15);
template <class R, unsigned D> struct Te16 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te16<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15);
template <class R, unsigned D> struct Tn16 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn16<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15);
struct At17 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; }; MAKE_ATTRIBUTE_TRAIT(At17, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
struct Nm17 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm17, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
struct Cu17 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } double g14() const { return m14; } void s14(double v) { m14 = v; } double g15() const { return m15; } void s15(double v) { m15 = v; } double g16() const { return m16; } void s16(double v) { m16 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu17, "c-0", std::make_pair(&Cu17::g0, &Cu17::s0), "c-1", &Cu17::m1, "c-2", std::make_pair(&Cu17::g2, &Cu17::s2), "c-3", &Cu17::m3, "c-4", std::make_pair(&Cu17::g4, &Cu17::s4), "c-5", &Cu17::m5, "c-6", std::make_pair(&Cu17::g6, &Cu17::s6), "c-7", &Cu17::m7, "c-8", std::make_pair(&Cu17::g8, &Cu17::s8), "c-9", &Cu17::m9, "c-10", std::make_pair(&Cu17::g10, &Cu17::s10), "c-11", &Cu17::m11, "c-12", std::make_pair(&Cu17::g12, &Cu17::s12), "c-13", &Cu17::m13, "c-14", std::make_pair(&Cu17::g14, &Cu17::s14), "c-15", &Cu17::m15, "c-16", std::make_pair(&Cu17::g16, &Cu17::s16));
template <class R, unsigned D> struct Te17 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te17<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16);
template <class R, unsigned D> struct Tn17 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn17<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16);
struct At18 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; }; MAKE_ATTRIBUTE_TRAIT(At18, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
struct Nm18 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm18, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
struct Cu18 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } double g14() const { return m14; } void s14(double v) { m14 = v; } double g15() const { return m15; } void s15(double v) { m15 = v; } double g16() const { return m16; } void s16(double v) { m16 = v; } double g17() const { return m17; } void s17(double v) { m17 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu18, "c-0", std::make_pair(&Cu18::g0, &Cu18::s0), "c-1", &Cu18::m1, "c-2", std::make_pair(&Cu18::g2, &Cu18::s2), "c-3", &Cu18::m3, "c-4", std::make_pair(&Cu18::g4, &Cu18::s4), "c-5", &Cu18::m5, "c-6", std::make_pair(&Cu18::g6, &Cu18::s6), "c-7", &Cu18::m7, "c-8", std::make_pair(&Cu18::g8, &Cu18::s8), "c-9", &Cu18::m9, "c-10", std::make_pair(&Cu18::g10, &Cu18::s10), "c-11", &Cu18::m11, "c-12", std::make_pair(&Cu18::g12, &Cu18::s12), "c-13", &Cu18::m13, "c-14", std::make_pair(&Cu18::g14, &Cu18::s14), "c-15", &Cu18::m15, "c-16", std::make_pair(&Cu18::g16, &Cu18::s16), "c-17", &Cu18::m17);
template <class R, unsigned D> struct Te18 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; R m17 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te18<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17);
template <class R, unsigned D> struct Tn18 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; R m17 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn18<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17);
struct At19 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double m18 = 0; }; MAKE_ATTRIBUTE_TRAIT(At19, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
struct Nm19 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double m18 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm19, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
struct Cu19 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double m18 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } double g14() const { return m14; } void s14(double v) { m14 = v; } double g15() const { return m15; } void s15(double v) { m15 = v; } double g16() const { return m16; } void s16(double v) { m16 = v; } double g17() const { return m17; } void s17(double v) { m17 = v; } double g18() const { return m18; } void s18(double v) { m18 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu19, "c-0", std::make_pair(&Cu19::g0, &Cu19::s0), "c-1", &Cu19::m1, "c-2", std::make_pair(&Cu19::g2, &Cu19::s2), "c-3", &Cu19::m3, "c-4", std::make_pair(&Cu19::g4, &Cu19::s4), "c-5", &Cu19::m5, "c-6", std::make_pair(&Cu19::g6, &Cu19::s6), "c-7", &Cu19::m7, "c-8", std::make_pair(&Cu19::g8, &Cu19::s8), "c-9", &Cu19::m9, "c-10", std::make_pair(&Cu19::g10, &Cu19::s10), "c-11", &Cu19::m11, "c-12", std::make_pair(&Cu19::g12, &Cu19::s12), "c-13", &Cu19::m13, "c-14", std::make_pair(&Cu19::g14, &Cu19::s14), "c-15", &Cu19::m15, "c-16", std::make_pair(&Cu19::g16, &Cu19::s16), "c-17", &Cu19::m17, "c-18", std::make_pair(&Cu19::g18, &Cu19::s18));
template <class R, unsigned D> struct Te19 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; R m17 = 0; R m18 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te19<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18);
template <class R, unsigned D> struct Tn19 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; R m17 = 0; R m18 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn19<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18);
struct At20 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double m18 = 0; double m19 = 0; }; MAKE_ATTRIBUTE_TRAIT(At20, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
struct Nm20 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double m18 = 0; double m19 = 0; }; MAKE_NAMED_ATTRIBUTE_TRAIT_IO(Nm20, "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
struct Cu20 { double m0 = 0; double m1 = 0; double m2 = 0; double m3 = 0; double m4 = 0; double m5 = 0; double m6 = 0; double m7 = 0; double m8 = 0; double m9 = 0; double m10 = 0; double m11 = 0; double m12 = 0; double m13 = 0; double m14 = 0; double m15 = 0; double m16 = 0; double m17 = 0; double m18 = 0; double m19 = 0; double g0() const { return m0; } void s0(double v) { m0 = v; } double g1() const { return m1; } void s1(double v) { m1 = v; } double g2() const { return m2; } void s2(double v) { m2 = v; } double g3() const { return m3; } void s3(double v) { m3 = v; } double g4() const { return m4; } void s4(double v) { m4 = v; } double g5() const { return m5; } void s5(double v) { m5 = v; } double g6() const { return m6; } void s6(double v) { m6 = v; } double g7() const { return m7; } void s7(double v) { m7 = v; } double g8() const { return m8; } void s8(double v) { m8 = v; } double g9() const { return m9; } void s9(double v) { m9 = v; } double g10() const { return m10; } void s10(double v) { m10 = v; } double g11() const { return m11; } void s11(double v) { m11 = v; } double g12() const { return m12; } void s12(double v) { m12 = v; } double g13() const { return m13; } void s13(double v) { m13 = v; } double g14() const { return m14; } void s14(double v) { m14 = v; } double g15() const { return m15; } void s15(double v) { m15 = v; } double g16() const { return m16; } void s16(double v) { m16 = v; } double g17() const { return m17; } void s17(double v) { m17 = v; } double g18() const { return m18; } void s18(double v) { m18 = v; } double g19() const { return m19; } void s19(double v) { m19 = v; } }; MAKE_CUSTOM_TRAIT_ARITHMETIC(Cu20, "c-0", std::make_pair(&Cu20::g0, &Cu20::s0), "c-1", &Cu20::m1, "c-2", std::make_pair(&Cu20::g2, &Cu20::s2), "c-3", &Cu20::m3, "c-4", std::make_pair(&Cu20::g4, &Cu20::s4), "c-5", &Cu20::m5, "c-6", std::make_pair(&Cu20::g6, &Cu20::s6), "c-7", &Cu20::m7, "c-8", std::make_pair(&Cu20::g8, &Cu20::s8), "c-9", &Cu20::m9, "c-10", std::make_pair(&Cu20::g10, &Cu20::s10), "c-11", &Cu20::m11, "c-12", std::make_pair(&Cu20::g12, &Cu20::s12), "c-13", &Cu20::m13, "c-14", std::make_pair(&Cu20::g14, &Cu20::s14), "c-15", &Cu20::m15, "c-16", std::make_pair(&Cu20::g16, &Cu20::s16), "c-17", &Cu20::m17, "c-18", std::make_pair(&Cu20::g18, &Cu20::s18), "c-19", &Cu20::m19);
template <class R, unsigned D> struct Te20 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; R m17 = 0; R m18 = 0; R m19 = 0; }; MAKE_ATTRIBUTE_TEMPLATE_TRAIT((Te20<R, D>), (class R, unsigned D), m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19);
template <class R, unsigned D> struct Tn20 { R m0 = 0; R m1 = 0; R m2 = 0; R m3 = 0; R m4 = 0; R m5 = 0; R m6 = 0; R m7 = 0; R m8 = 0; R m9 = 0; R m10 = 0; R m11 = 0; R m12 = 0; R m13 = 0; R m14 = 0; R m15 = 0; R m16 = 0; R m17 = 0; R m18 = 0; R m19 = 0; }; MAKE_NAMED_ATTRIBUTE_TEMPLATE_TRAIT_IO((Tn20<R, D>), (class R, unsigned D), "name 0", m0, "name 1", m1, "name 2", m2, "name 3", m3, "name 4", m4, "name 5", m5, "name 6", m6, "name 7", m7, "name 8", m8, "name 9", m9, "name 10", m10, "name 11", m11, "name 12", m12, "name 13", m13, "name 14", m14, "name 15", m15, "name 16", m16, "name 17", m17, "name 18", m18, "name 19", m19);
