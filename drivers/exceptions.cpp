#include "seqlib.hpp"
#include "library/Javax/Ws/Rs/BadRequestException/BadRequestException.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
#include "library/Java/Security/NoSuchAlgorithmException/NoSuchAlgorithmException.hpp"
#include "library/Java/Io/UnsupportedEncodingException/UnsupportedEncodingException.hpp"
#include "library/Javax/Cql/CQLException/CQLException.hpp"
using namespace Java::Lang;
#define CLASSES(X) X(0, Throwable) X(1, Exception) X(2, Error) X(3, RuntimeException) X(4, IndexOutOfBoundsException) X(5, StringIndexOutOfBoundsException) X(6, ArithmeticException) \
    X(7, IllegalArgumentException) X(8, NumberFormatException) X(9, NoSuchElementException) X(10, NegativeArraySizeException) X(11, Java::Util::EmptyStackException) X(12, UnsupportedOperationException) \
    X(13, ClassCastException) X(14, CloneNotSupportedException) X(15, InterruptedException) X(16, AssertionError) X(17, Java::IO::IOException) X(18, Java::IO::UnsupportedEncodingException) \
    X(19, Java::Security::GeneralSecurityException) X(20, Java::Security::NoSuchAlgorithmException) X(21, Javax::Ws::Rs::Core::MediaTypeException) X(22, Javax::Ws::Rs::WebApplicationException) \
    X(23, Javax::Ws::Rs::ClientErrorException) X(24, Javax::Ws::Rs::BadRequestException) X(25, Javax::Cql::CQLException)
const size_t ROOM = 256;
// objects are built over memory with a known non-zero content, so that a field left unset shows
struct Mem { alignas(16) unsigned char b[ROOM]; void *clean() { memset(b, 0x5a, ROOM); return b; } };
struct Ops { virtual void destroy(Mem &) = 0; virtual Throwable *at(Mem &) = 0; virtual void raise(Mem &) = 0; virtual void copy(Mem &from, Mem &to) = 0; virtual void assign(Mem &to, Mem &from) = 0; virtual void keep(Mem &from, Mem &to) = 0; };
template <class T> struct Of : Ops {
    static_assert(sizeof(T) <= ROOM, "room");
    static Of it;
    static T &o(Mem &m) { return *reinterpret_cast<T *>(m.b); }
    template <class... A> static Ops *build(Mem &m, A &&...a) { new (m.clean()) T(std::forward<A>(a)...); return &it; }
    void destroy(Mem &m) { o(m).~T(); }
    Throwable *at(Mem &m) { return &o(m); }
    void raise(Mem &m) { throw o(m); }
    void copy(Mem &from, Mem &to) { new (to.clean()) T((const T &) o(from)); }
    void assign(Mem &to, Mem &from) { o(to) = (const T &) o(from); }
    void keep(Mem &from, Mem &to) { try { throw o(from); } catch (const T &e) { new (to.clean()) T(e); } }
};
template <class T> Of<T> Of<T>::it;
template <class T> typename std::enable_if<std::is_constructible<T, const String &>::value, Ops *>::type mkText(Mem &m, const String &t) { return Of<T>::build(m, t); }
template <class T> typename std::enable_if<!std::is_constructible<T, const String &>::value, Ops *>::type mkText(Mem &, const String &) { badScript("no text"); }
template <class T> typename std::enable_if<std::is_constructible<T, const String &, Throwable *>::value, Ops *>::type mkBoth(Mem &m, const String &t, Throwable *c) { return Of<T>::build(m, t, c); }
template <class T> typename std::enable_if<!std::is_constructible<T, const String &, Throwable *>::value, Ops *>::type mkBoth(Mem &, const String &, Throwable *) { badScript("no both"); }
template <class T> struct HasCause { static const bool value = std::is_constructible<T, Throwable *>::value && !std::is_same<T, AssertionError>::value && !std::is_same<T, NumberFormatException>::value; };
template <class T> typename std::enable_if<HasCause<T>::value, Ops *>::type mkCause(Mem &m, Throwable *c) { return Of<T>::build(m, c); }
template <class T> typename std::enable_if<!HasCause<T>::value, Ops *>::type mkCause(Mem &, Throwable *) { badScript("no cause"); }
static Ops *mk(Mem &m, int form, int c, const String &t, Throwable *z) {
    switch (c) {
        #define X(n, T) case n: return form == 0 ? Of<T>::build(m) : form == 1 ? mkText<T>(m, t) : form == 2 ? mkBoth<T>(m, t, z) : mkCause<T>(m, z);
        CLASSES(X)
        #undef X
    }
    badScript("class");
}
struct Run : Base {
    Mem m[4];
    Ops *h[4] = {nullptr, nullptr, nullptr, nullptr};
    Run() { for (Mem &x : m) x.clean(); }
    ~Run() { for (int s = 1; s < 4; ++s) drop(s); }
    void drop(int s) { if (h[s]) h[s]->destroy(m[s]); h[s] = nullptr; }
    int slot(Throwable *c) {                         // objects sit at fixed places, so a cause names a slot
        if (!c) return 0;
        for (int s = 1; s < 4; ++s) if (h[s] && h[s]->at(m[s]) == c) return s;
        return -1;
    }
    Throwable *at(int s) { return s ? reinterpret_cast<Throwable *>(m[s].b) : nullptr; }
    template <class F> void put(int s, F f) { Mem tmp; Ops *n = f(tmp); drop(s); h[s] = n; n->copy(tmp, m[s]); n->destroy(tmp); }
    template <class T, class A> void build(int s, A a) { drop(s); h[s] = Of<T>::build(m[s], a); }
    void form(int s, int f, int c, const String &t, int z) { drop(s); h[s] = mk(m[s], f, c, t, at(z)); }
    void show(Throwable &e, Res &r) { r.str(e.getMessage().toCharPointer()).i(slot(e.getCause())); }
    template <class B> void caught(int s, Res &r) { try { h[s]->raise(m[s]); } catch (B &e) { show(e, r); } catch (...) {} }
    void step(const std::string &op, const Args &a, Res &r) {
        int s = a[0].i;
        if (op == "plain") form(s, 0, a[1].i, "", 0);
        else if (op == "text") form(s, 1, a[1].i, String(a[2].str().c_str()), 0);
        else if (op == "both") form(s, 2, a[1].i, String(a[2].str().c_str()), a[3].i);
        else if (op == "cause") form(s, 3, a[1].i, "", a[2].i);
        else if (op == "outOf") build<StringIndexOutOfBoundsException>(s, (int) a[1].i);
        else if (op == "assertInt") build<AssertionError>(s, (int) a[1].i);
        else if (op == "assertLong") build<AssertionError>(s, (long) a[1].i);
        else if (op == "assertBool") build<AssertionError>(s, (boolean) a[1].i);
        else if (op == "assertChar") build<AssertionError>(s, (char) a[1].i);
        else if (op == "copy" && a[1].i != s) { drop(s); int t = a[1].i; h[t]->copy(m[t], m[s]); h[s] = h[t]; }
        else if (op == "copy") put(s, [&](Mem &x) { h[s]->copy(m[s], x); return h[s]; });
        else if (op == "assign") h[s]->assign(m[s], m[a[1].i]);
        else if (op == "keep") { int t = a[1].i; put(s, [&](Mem &x) { h[t]->keep(m[t], x); return h[t]; }); }
        else if (op == "raise") {
            switch (a[1].i) {
                #define X(n, T) case n: caught<T>(s, r); break;
                CLASSES(X)
                #undef X
            }
        }
        else if (op == "chain") { Throwable *t = at(s); for (int n = 0; t && n < 3; ++n) { r.str(t->getMessage().toCharPointer()); t = t->getCause(); if (t && slot(t) < 0) { r.i(-1); break; } } }
        else badScript(op);
    }
    void project(Res &r) { for (int s = 1; s < 4; ++s) { r.open(); if (h[s]) show(*at(s), r); r.close(); } }
};
Base *make(int) { return new Run(); }
