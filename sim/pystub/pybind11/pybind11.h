// Stand-in for pybind11: same interface as far as generated bindings use it, backed by the simulated interpreter in simpy.hpp.
#pragma once
#include "../simpy.hpp"
#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(name, var) void sim_module_init(pybind11::module &var)

namespace pybind11 {
using std::string;
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
class gil_scoped_acquire {
	bool was; size_t at;
public:
	gil_scoped_acquire() { was = simpy::held(); if( !was ) simpy::acquire(); at = simpy::me().frames.size(); simpy::me().frames += 'A'; }
	gil_scoped_acquire(gil_scoped_acquire const &) = delete;
	~gil_scoped_acquire() { auto &f = simpy::me().frames; if( f.size() > at ) f.erase(at, 1); if( !was ) simpy::release(); }
};
class gil_scoped_release {
	size_t at;
public:
	explicit gil_scoped_release(bool = false) { simpy::release(); at = simpy::me().frames.size(); simpy::me().frames += 'R'; }
	gil_scoped_release(gil_scoped_release const &) = delete;
	~gil_scoped_release() { auto &f = simpy::me().frames; if( f.size() > at ) f.erase(at, 1); simpy::acquire(); }
};
template<class... G> struct call_guard;
template<> struct call_guard<> { struct type {}; };
template<class T> struct call_guard<T> { using type = T; };
template<class T, class... R> struct call_guard<T, R...> { struct type { T guard{}; typename call_guard<R...>::type next{}; }; };
template<class... T> struct base {};
struct arg { explicit arg(char const * = nullptr) {} arg &none(bool = true) { return *this; } arg &noconvert(bool = true) { return *this; } template<class T> arg operator=(T &&) const { return *this; } };
template<size_t N, size_t P> struct keep_alive {};
struct module_local { explicit module_local(bool = true) {} };
struct dynamic_attr {}; struct buffer_protocol {}; struct multiple_inheritance {}; struct is_operator {}; struct arithmetic {};

class handle { protected: bool ref = false; public: explicit operator bool() const { return ref; } };
class object : public handle {
public:
	object() {} object(bool r) { ref = r; }
	object(object const &o) : handle() { ref = o.ref; if( ref ) simpy::interp("inc_ref"); }
	object(object &&o) noexcept : handle() { ref = o.ref; o.ref = false; }
	object &operator=(object &&o) noexcept { std::swap(ref, o.ref); return *this; }
	object &operator=(object const &o) { object c(o); std::swap(ref, c.ref); return *this; }
	~object() { if( ref ) simpy::interp("dec_ref"); }
	template<class T> T cast() const { simpy::interp("cast"); return simpy::Make<T>::get(); }
};
class function : public object {
	string name;
public:
	function() {} function(string n) : object(true), name(n) {}
	template<return_value_policy P = return_value_policy::automatic_reference, class... A> object operator()(A &&...) const { simpy::interp("call of override " + name); simpy::override_body(name); return object(true); }
	template<return_value_policy P = return_value_policy::automatic_reference, class... A> object call(A &&...a) const { return operator()<P>(std::forward<A>(a)...); }
};
[[noreturn]] inline void pybind11_fail(char const *s) { throw std::runtime_error(s); }
[[noreturn]] inline void pybind11_fail(string const &s) { throw std::runtime_error(s); }
template<class T> function get_override(T const *, char const *name)
{
	simpy::interp(string("look up override ") + name); auto &t = simpy::me(); string n = name;
	bool ov = t.cur->next() % 2, pure = n.find("pv_") != string::npos;
	if( pure && (t.nothrow || n.compare(0, 2, "nx") == 0) ) ov = true;
	simpy::seen[ov ? "override found" : "no override"]++;
	return ov ? function(n) : function();
}
template<class T> function get_overload(T const *p, char const *name) { return get_override(p, name); }
namespace detail {
template<class T> struct intrinsic { using type = std::remove_cv_t<std::remove_reference_t<std::remove_pointer_t<T>>>; };
template<class T> struct cast_is_temporary_value_reference { static constexpr bool value = (std::is_reference<T>::value || std::is_pointer<T>::value) && !std::is_class<typename intrinsic<T>::type>::value && !std::is_void<typename intrinsic<T>::type>::value; };
template<> struct cast_is_temporary_value_reference<std::string &> { static constexpr bool value = true; };
template<> struct cast_is_temporary_value_reference<std::string const &> { static constexpr bool value = true; };
template<class T> struct override_caster_t {};
template<class T> using overload_caster_t = override_caster_t<T>;
template<class T> T cast_ref(object &&o, override_caster_t<T> &) { object x(std::move(o)); simpy::interp("convert result"); return simpy::Make<T>::get(); }
template<class T> T cast_safe(object &&o) { object x(std::move(o)); simpy::interp("convert result"); return simpy::Make<T>::get(); }
template<class E> struct guard_of { using type = void; };
template<class... G> struct guard_of<call_guard<G...>> { using type = typename call_guard<G...>::type; };
template<class... E> struct find_guard { using type = void; };
template<class E, class... R> struct find_guard<E, R...> { using a = typename guard_of<std::decay_t<E>>::type; using type = std::conditional_t<std::is_void<a>::value, typename find_guard<R...>::type, a>; };
template<class G> struct guarded { template<class F> static auto run(F &&f) -> decltype(f()) { G g{}; return f(); } };
template<> struct guarded<void> { template<class F> static auto run(F &&f) -> decltype(f()) { return f(); } };
template<class G, class R, class C, class... A> void add(string const &name, C f)
{
	simpy::bound.push_back({name, [f, name](simpy::Thr &) {
		simpy::interp("convert arguments of " + name);
		std::tuple<A...> args{simpy::Make<A>::get()...};
		auto go = [&]() -> R { return std::apply([&](auto &...x) -> R { return f(std::forward<A>(x)...); }, args); };
		if constexpr( std::is_void<R>::value ) guarded<G>::run(go);
		else { R r = guarded<G>::run(go); (void)r; simpy::interp("convert result of " + name); return; }
		simpy::interp("result of " + name); }});
}
template<class G, class D, class R, class... A> void def(string const &n, R (*f)(A...)) { add<G, R, R (*)(A...), A...>(n, f); }
template<class G, class D, class R, class C, class... A> void def(string const &n, R (C::*f)(A...)) { auto l = [f](D &o, A... a) -> R { return (o.*f)(std::forward<A>(a)...); }; add<G, R, decltype(l), D &, A...>(n, l); }
template<class G, class D, class R, class C, class... A> void def(string const &n, R (C::*f)(A...) const) { auto l = [f](D const &o, A... a) -> R { return (o.*f)(std::forward<A>(a)...); }; add<G, R, decltype(l), D const &, A...>(n, l); }
template<class G, class D, class R, class C, class... A> void def(string const &n, R (C::*f)(A...) &) { auto l = [f](D &o, A... a) -> R { return (o.*f)(std::forward<A>(a)...); }; add<G, R, decltype(l), D &, A...>(n, l); }
template<class G, class D, class R, class C, class... A> void def(string const &n, R (C::*f)(A...) noexcept) { auto l = [f](D &o, A... a) -> R { return (o.*f)(std::forward<A>(a)...); }; add<G, R, decltype(l), D &, A...>(n, l); }
template<class G, class D, class R, class C, class... A> void def(string const &n, R (C::*f)(A...) const noexcept) { auto l = [f](D const &o, A... a) -> R { return (o.*f)(std::forward<A>(a)...); }; add<G, R, decltype(l), D const &, A...>(n, l); }
template<class G, class L, class R, class C, class... A> void def_lambda(string const &n, L l, R (C::*)(A...) const) { add<G, R, L, A...>(n, l); }
template<class G, class D, class L, class = decltype(&L::operator())> void def(string const &n, L l) { def_lambda<G>(n, l, &L::operator()); }
template<class T, class... O> struct find_alias { using type = void; };
template<class T, class O, class... R> struct find_alias<T, O, R...> { using type = std::conditional_t<std::is_base_of<T, O>::value && !std::is_same<T, O>::value, O, typename find_alias<T, R...>::type>; };
} // namespace detail
namespace detail { struct init_ {}; }
template<class... A> detail::init_ init() { return {}; }
template<class F> detail::init_ init(F &&) { return {}; }
template<class F, class G> detail::init_ init(F &&, G &&) { return {}; }
struct doc_ { template<class T> doc_ &operator=(T const &) { return *this; } };
class module {
	string n;
public:
	module(string s = "") : n(s) {}
	doc_ doc() { return {}; }
	module def_submodule(char const *s, char const * = nullptr) { return module(n + s + "."); }
	template<class F, class... E> module &def(char const *s, F &&f, E const &...) { detail::def<typename detail::find_guard<E...>::type, void>(n + s, std::decay_t<F>(f)); return *this; }
	string const &name() const { return n; }
	doc_ attr(char const *) { return {}; }
};
using module_ = module;
template<class T> struct enum_ { template<class... A> enum_(A &&...) {} enum_ &value(char const *, T, char const * = nullptr) { return *this; } enum_ &export_values() { return *this; } template<class... A> enum_ &def(A &&...) { return *this; } };
template<class T, class... O> class class_ {
	string n;
public:
	template<class... X> class_(module &m, char const *s, X &&...) : class_(m.name() + s, 0) {}
	template<class U, class... V, class... X> class_(class_<U, V...> &m, char const *s, X &&...) : class_(m.name() + "." + s, 0) {}
	class_(string s, int) : n(s)
	{
		using A = typename detail::find_alias<T, O...>::type;
		if constexpr( !std::is_void<A>::value ) { if constexpr( std::is_default_constructible<A>::value ) simpy::Inst<T>::alias() = new A(); }
		if constexpr( std::is_default_constructible<T>::value && !std::is_abstract<T>::value ) simpy::Inst<T>::plain() = new T();
	}
	string const &name() const { return n; }
	template<class F, class... E> class_ &def(char const *s, F &&f, E const &...) { detail::def<typename detail::find_guard<E...>::type, T>(n + "." + s, std::decay_t<F>(f)); return *this; }
	template<class... E> class_ &def(detail::init_, E const &...) { return *this; }
	template<class F, class... E> class_ &def_static(char const *s, F &&f, E const &...) { detail::def<typename detail::find_guard<E...>::type, T>(n + "." + s, std::decay_t<F>(f)); return *this; }
	template<class... E> class_ &def_readwrite(E const &...) { return *this; }
	template<class... E> class_ &def_readonly(E const &...) { return *this; }
	template<class... E> class_ &def_readwrite_static(E const &...) { return *this; }
	template<class... E> class_ &def_readonly_static(E const &...) { return *this; }
	template<class... E> class_ &def_property(E const &...) { return *this; }
	template<class... E> class_ &def_property_readonly(E const &...) { return *this; }
	doc_ attr(char const *) { return {}; }
};
using error_already_set = simpy::py_error;
} // namespace pybind11
namespace py = pybind11;
