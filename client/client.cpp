// Instantiates the templates of the public API so that the analyses see their bodies.
#include "blet/args.h"

namespace verif_client {

struct Other {
    int x;
};

template<typename T>
void dests(blet::args::Argument& a, T& t, std::vector<T>& v, std::vector<std::vector<T> >& vv) {
    a.dest(t);
    a.dest(v);
    a.dest(vv);
}

#define INST(T)                                          \
    template class blet::args::ArgumentType<T>;          \
    template class blet::args::ArgumentVectorType<T>;    \
    template class blet::args::ArgumentVectorVectorType<T>;

void instantiate(blet::args::Argument& a) {
    {
        int t = 0;
        std::vector<int> v;
        std::vector<std::vector<int> > vv;
        dests<int>(a, t, v, vv);
    }
    {
        double t = 0;
        std::vector<double> v;
        std::vector<std::vector<double> > vv;
        dests<double>(a, t, v, vv);
    }
    {
        std::string t;
        std::vector<std::string> v;
        std::vector<std::vector<std::string> > vv;
        dests<std::string>(a, t, v, vv);
    }
    {
        const char* t = NULL;
        std::vector<const char*> v;
        std::vector<std::vector<const char*> > vv;
        dests<const char*>(a, t, v, vv);
    }
    {
        char t = 0;
        a.dest(t);
        bool b = false;
        a.dest(b);
        char buf1[1];
        char buf2[2];
        char buf4[4];
        char buf5[5];
        char buf6[6];
        char buf64[64];
        a.dest(buf1);
        a.dest(buf2);
        a.dest(buf4);
        a.dest(buf5);
        a.dest(buf6);
        a.dest(buf64);
        Other o;
        a.dest(o);
    }
    {
        unsigned char a1 = 0;
        short a2 = 0;
        unsigned short a3 = 0;
        unsigned int a4 = 0;
        long a5 = 0;
        unsigned long a6 = 0;
        long long a7 = 0;
        unsigned long long a8 = 0;
        float a9 = 0;
        long double a10 = 0;
        a.dest(a1);
        a.dest(a2);
        a.dest(a3);
        a.dest(a4);
        a.dest(a5);
        a.dest(a6);
        a.dest(a7);
        a.dest(a8);
        a.dest(a9);
        a.dest(a10);
    }
}

double asNumber(const blet::args::Argument& a) {
    return a;
}

using blet::args::Vector;
typedef const char* cstr;
typedef const std::string& str;

// every way of building a list of names; checks/c_api.py knows what each one lists
Vector list_none() {
    Vector v;
    return v;
}
Vector list_cstr(cstr a) {
    Vector v(a);
    return v;
}
Vector list_str(str a) {
    Vector v(a);
    return v;
}
Vector list_lit0() {
    Vector v("");
    return v;
}
Vector list_lit1() {
    Vector v("a");
    return v;
}
Vector list_lit() {
    Vector v("--lit");
    return v;
}
Vector list_carr1(cstr a) {
    cstr arr[] = {a};
    Vector v(arr);
    return v;
}
Vector list_carr2(cstr a, cstr b) {
    cstr arr[] = {a, b};
    Vector v(arr);
    return v;
}
Vector list_carr3(cstr a, cstr b, cstr c) {
    cstr arr[] = {a, b, c};
    Vector v(arr);
    return v;
}
Vector list_carr5(cstr a, cstr b, cstr c, cstr d, cstr e) {
    cstr arr[] = {a, b, c, d, e};
    Vector v(arr);
    return v;
}
Vector list_ccarr1(cstr a) {
    const char* const arr[] = {a};
    Vector v(arr);
    return v;
}
Vector list_ccarr2(cstr a, cstr b) {
    const char* const arr[] = {a, b};
    Vector v(arr);
    return v;
}
Vector list_ccarr3(cstr a, cstr b, cstr c) {
    const char* const arr[] = {a, b, c};
    Vector v(arr);
    return v;
}
Vector list_ccarr5(cstr a, cstr b, cstr c, cstr d, cstr e) {
    const char* const arr[] = {a, b, c, d, e};
    Vector v(arr);
    return v;
}
Vector list_sarr1(str a) {
    const std::string arr[] = {a};
    Vector v(arr);
    return v;
}
Vector list_sarr2(str a, str b) {
    const std::string arr[] = {a, b};
    Vector v(arr);
    return v;
}
Vector list_sarr3(str a, str b, str c) {
    const std::string arr[] = {a, b, c};
    Vector v(arr);
    return v;
}
Vector list_sarr5(str a, str b, str c, str d, str e) {
    const std::string arr[] = {a, b, c, d, e};
    Vector v(arr);
    return v;
}
Vector list_init3(str a, str b, str c) {
    std::initializer_list<std::string> l = {a, b, c};
    Vector v(l);
    return v;
}
Vector list_size3() {
    Vector v(3);
    return v;
}
Vector list_plus_lit(Vector v) {
    v + "--lit";
    return v;
}
Vector list_plus_lit1(Vector v) {
    v + "a";
    return v;
}
Vector list_plus_cstr(Vector v, cstr a) {
    v + a;
    return v;
}
Vector list_plus_str(Vector v, str a) {
    v + a;
    return v;
}
Vector list_chain(cstr a, str b, cstr c) {
    return Vector(a) + b + "--lit" + c;
}

Vector list_vec0() {
    return blet::Args::vector();
}
Vector list_vec1(cstr s1) {
    return blet::Args::vector(s1);
}
Vector list_vec2(cstr s1, cstr s2) {
    return blet::Args::vector(s1, s2);
}
Vector list_vec3(cstr s1, cstr s2, cstr s3) {
    return blet::Args::vector(s1, s2, s3);
}
Vector list_vec4(cstr s1, cstr s2, cstr s3, cstr s4) {
    return blet::Args::vector(s1, s2, s3, s4);
}
Vector list_vec5(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5) {
    return blet::Args::vector(s1, s2, s3, s4, s5);
}
Vector list_vec6(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6);
}
Vector list_vec7(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7);
}
Vector list_vec8(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8);
}
Vector list_vec9(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9);
}
Vector list_vec10(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10);
}
Vector list_vec11(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11);
}
Vector list_vec12(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12);
}
Vector list_vec13(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13);
}
Vector list_vec14(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14);
}
Vector list_vec15(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14, cstr s15) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14, s15);
}
Vector list_vec16(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14, cstr s15, cstr s16) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14, s15, s16);
}
Vector list_vec17(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14, cstr s15, cstr s16,
                   cstr s17) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14, s15, s16, s17);
}
Vector list_vec18(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14, cstr s15, cstr s16,
                   cstr s17, cstr s18) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14, s15, s16, s17, s18);
}
Vector list_vec19(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14, cstr s15, cstr s16,
                   cstr s17, cstr s18, cstr s19) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14, s15, s16, s17, s18, s19);
}
Vector list_vec20(cstr s1, cstr s2, cstr s3, cstr s4, cstr s5, cstr s6, cstr s7, cstr s8,
                   cstr s9, cstr s10, cstr s11, cstr s12, cstr s13, cstr s14, cstr s15, cstr s16,
                   cstr s17, cstr s18, cstr s19, cstr s20) {
    return blet::Args::vector(s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11, s12,
                   s13, s14, s15, s16, s17, s18, s19, s20);
}

} // namespace verif_client
