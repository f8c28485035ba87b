// Stand-in for the absent emscripten SDK: embind's registration interface, recording every export so that a native
// harness can call it by its JavaScript name. As in embind, objects returned by value become heap objects made by
// moving the value, arguments are converted to the declared type, and C++ exceptions reach the caller.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <vector>
namespace emscripten {
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };      // raised by the glue, not by the library
struct Value {
    enum Kind { None, Number, Text, Bytes, Object } kind = None;
    double number = 0; std::string text; std::vector<uint8_t> bytes; std::shared_ptr<void> object; std::type_index type = typeid(void);
    Value() = default;
    template <class T, std::enable_if_t<std::is_arithmetic<T>::value, int> = 0> Value(T n) : kind(Number), number((double) n) {}
    Value(const char *s) : kind(Text), text(s) {}
    Value(const std::string &s) : kind(Text), text(s) {}
    Value(const std::vector<uint8_t> &b) : kind(Bytes), bytes(b) {}
    bool operator==(const Value &o) const { return kind == o.kind && number == o.number && text == o.text && bytes == o.bytes && object == o.object; }
};
using Args = std::vector<Value>;
struct Callable { std::function<Value(const Value *self, const Args &)> call; size_t arity; };
struct Module { std::map<std::string, Callable> functions, methods, statics; std::map<std::string, double> enums; std::vector<std::string> classes; std::vector<std::string> errors; };
inline std::map<std::string, Module> &modules() { static std::map<std::string, Module> m; return m; }
inline Module *&current() { static Module *m; return m; }
inline int enter(const char *file) {
    std::string f = file;
    size_t s = f.rfind('/');
    if (s != std::string::npos) f = f.substr(s + 1);
    current() = &modules()[f];
    return 0;
}
inline void put(std::map<std::string, Callable> &m, const std::string &name, Callable c) {
    if (!m.emplace(name, c).second) current()->errors.push_back("registered twice: " + name);     // embind refuses this when the module loads
}
template <class T> T from(const Value &v) {
    using D = std::decay_t<T>;
    if constexpr (std::is_arithmetic<D>::value) { if (v.kind != Value::Number) throw TypeError("number expected"); return (D) (long long) v.number; }
    else if constexpr (std::is_enum<D>::value) { if (v.kind != Value::Number) throw TypeError("enum expected"); return (D) (long long) v.number; }
    else if constexpr (std::is_same<D, std::string>::value) { if (v.kind != Value::Text) throw TypeError("text expected"); return v.text; }
    else if constexpr (std::is_same<D, std::vector<uint8_t>>::value) { if (v.kind != Value::Bytes) throw TypeError("vector expected"); return v.bytes; }
    else { if (v.kind != Value::Object || v.type != typeid(D)) throw TypeError("object expected"); return *static_cast<D *>(v.object.get()); }
}
template <class R> Value to(R &&r) {
    using D = std::decay_t<R>;
    if constexpr (std::is_arithmetic<D>::value) return Value((double) r);
    else if constexpr (std::is_enum<D>::value) return Value((double) (long long) r);
    else if constexpr (std::is_same<D, std::string>::value || std::is_same<D, std::vector<uint8_t>>::value) return Value(r);
    else { Value v; v.kind = Value::Object; v.type = typeid(D); v.object = std::shared_ptr<void>(std::make_shared<D>(std::move(r))); return v; }
}
template <class T> struct Hold { std::decay_t<T> v; operator T() { if constexpr (std::is_lvalue_reference<T>::value) return v; else return std::move(v); } };
template <class R, class F, class... A, size_t... I> Value invoke(F f, const Args &a, std::index_sequence<I...>) {
    if (a.size() != sizeof...(A)) throw TypeError("wrong number of arguments");
    if constexpr (std::is_void<R>::value) { f(Hold<A>{from<A>(a[I])}...); return Value(); }
    else return to(f(Hold<A>{from<A>(a[I])}...));
}
template <class R, class... A> Callable wrap(R (*f)(A...)) {
    return {[f](const Value *, const Args &a) { return invoke<R, R (*)(A...), A...>(f, a, std::index_sequence_for<A...>()); }, sizeof...(A)};
}
template <class... P> struct allow {};
struct allow_raw_pointers {};
template <class R, class... A, class... P> void function(const char *name, R (*f)(A...), P...) { put(current()->functions, name, wrap(f)); }
template <class T> void register_vector(const char *) {}
template <class E> struct enum_ {
    std::string name;
    enum_(const char *n) : name(n) {}
    enum_ &value(const char *n, E e) { current()->enums[name + "." + n] = (double) (long long) e; return *this; }
};
template <class C> struct class_ {
    std::string name;
    class_(const char *n) : name(n) { current()->classes.push_back(n); }
    template <class R, class... A, class... P> class_ &class_function(const char *n, R (*f)(A...), P...) { put(current()->statics, name + "." + n, wrap(f)); return *this; }
    template <class R, class B, class... A, class... P> class_ &function(const char *n, R (B::*f)(A...), P...) { method<R, A...>(n, [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }); return *this; }
    template <class R, class B, class... A, class... P> class_ &function(const char *n, R (B::*f)(A...) const, P...) { method<R, A...>(n, [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }); return *this; }
    template <class R, class... A, class... P> class_ &function(const char *n, R (*f)(C &, A...), P...) { method<R, A...>(n, f); return *this; }
    template <class... A, class... P> class_ &constructor(P...) {
        put(current()->statics, name + ".constructor", {[](const Value *, const Args &a) { return make<A...>(a, std::index_sequence_for<A...>()); }, sizeof...(A)});
        return *this;
    }
private:
    template <class... A, size_t... I> static Value make(const Args &a, std::index_sequence<I...>) {
        Value v; v.kind = Value::Object; v.type = typeid(C); v.object = std::shared_ptr<void>(std::shared_ptr<C>(new C(Hold<A>{from<A>(a[I])}...))); return v;
    }
    template <class R, class... A, class F> void method(const char *n, F f) {
        put(current()->methods, name + "." + n, {[f](const Value *self, const Args &a) {
            if (!self || self->kind != Value::Object || self->type != typeid(C)) throw TypeError("object of this class expected");
            C &c = *static_cast<C *>(self->object.get());
            auto bound = [&](A... x) -> R { return f(c, std::forward<A>(x)...); };
            return invoke<R, decltype(bound), A...>(bound, a, std::index_sequence_for<A...>());
        }, sizeof...(A)});
    }
};
}
#define EMSCRIPTEN_BINDINGS(name)                                                       \
    static void embind_init_##name();                                                   \
    static int embind_run_##name = (emscripten::enter(__BASE_FILE__), embind_init_##name(), 0); \
    static void embind_init_##name()
