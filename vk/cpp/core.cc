// Driver of the C++ core (core.hh), the domain builders and the utilities: executes the operations read on the standard input and prints what it observes.
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <functional>
#include <atomic>
#include <thread>
#include <chrono>
#include <list>
#include <limits>
#if defined(VK_EXEC)
#include "utils/execution.hh"
#else
#include "core.hh"
#include "builders/domain/memory.hh"
#include "builders/domain/observability.hh"
#include "builders/domain/initialization.hh"
#include "builders/domain/events.hh"
#include "builders/domain/goals.hh"
#include "utils/associative_container_deducer.hh"
#include "utils/string_converter.hh"
#endif

using std::cout;
using std::string;
static std::istream& in = std::cin;
template <typename T> static T rd() { T t; if (!(in >> t)) { cout << std::endl; std::exit(4); } return t; }     // a history that ends early is an error of the driver
static std::size_t rlen() { string s = rd<string>(); return s == "inf" ? std::numeric_limits<std::size_t>::max() : std::stoul(s); }
static string show(std::size_t n) { return n == std::numeric_limits<std::size_t>::max() ? "inf" : std::to_string(n); }

#if defined(VK_CORE)
using namespace skdecide;
// ---------------------------------------------------------------- memory
typedef Memory<string> Mem;
static std::map<int, std::unique_ptr<Mem>> mems;
static void dump(const Mem& m) {
    cout << "mem " << show(m.maxlen()) << " " << m.size();
    for (const auto& x : m) cout << " " << x;
    cout << "\n";
}
static void mem_op(const string& op) {
    int k = rd<int>();
    if (op == "m.default") mems[k] = std::make_unique<Mem>();
    else if (op == "m.new") mems[k] = std::make_unique<Mem>(rlen());
    else if (op == "m.range" || op == "m.rangeinf") {
        std::size_t n = op == "m.range" ? rlen() : 0;
        std::list<string> v(rd<int>());
        for (auto& x : v) x = rd<string>();
        mems[k] = op == "m.range" ? std::make_unique<Mem>(v.begin(), v.end(), n) : std::make_unique<Mem>(v.begin(), v.end());
    } else if (op == "m.list3") {
        std::size_t n = rlen();
        string a = rd<string>(), b = rd<string>(), c = rd<string>();
        mems[k] = std::make_unique<Mem>(std::initializer_list<string>{a, b, c}, n);
    } else if (op == "m.pb") mems.at(k)->push_back(rd<string>());
    else if (op == "m.pf") mems.at(k)->push_front(rd<string>());
    else if (op == "m.pbl") { const string v = rd<string>(); mems.at(k)->push_back(v); cout << "kept " << v << "\n"; }
    else if (op == "m.pfl") { const string v = rd<string>(); mems.at(k)->push_front(v); cout << "kept " << v << "\n"; }
    else if (op == "m.pba") mems.at(k)->push_back(mems.at(k)->front());
    else if (op == "m.pfa") mems.at(k)->push_front(mems.at(k)->back());
    else if (op == "m.copy") { int j = rd<int>(); mems[k] = std::make_unique<Mem>(*mems.at(j)); }
    else if (op == "m.asg") { int j = rd<int>(); *mems.at(k) = *mems.at(j); }
    else if (op == "m.del") { mems.erase(k); return; }
    else if (op == "m.eq") { int j = rd<int>(); cout << "eq " << (*mems.at(k) == *mems.at(j)) << "\n"; return; }
    dump(*mems.at(k));
}
// ---------------------------------------------------------------- distributions
template <typename D> struct Dists {
    std::map<int, std::unique_ptr<D>> d;
    typedef typename D::element_type T;
    void vals(D& x) {
        std::map<T, double> o(x.get_values().begin(), x.get_values().end());
        cout << "vals " << x.get_values().size();
        cout.precision(17);
        for (auto& p : o) cout << " " << (std::is_same<T, string>::value ? "s" : "i") << p.first << " " << p.second;
        cout << "\n";
    }
    void op(const string& o) {
        int k = rd<int>();
        if (o == "d.new") {
            std::vector<std::pair<T, double>> v(rd<int>());
            for (auto& p : v) { p.first = rd<T>(); p.second = rd<double>(); }
            d[k] = std::make_unique<D>(v.begin(), v.end());
        } else if (o == "d.list3") {
            std::pair<T, double> v[3];
            for (auto& p : v) { p.first = rd<T>(); p.second = rd<double>(); }
            d[k] = std::make_unique<D>(std::initializer_list<std::pair<T, double>>{v[0], v[1], v[2]});
        } else if (o == "d.copy") { int j = rd<int>(); d[k] = std::make_unique<D>(*d.at(j)); }
        else if (o == "d.asg") { int j = rd<int>(); *d.at(k) = *d.at(j); }
        else if (o == "d.move") { int j = rd<int>(); d[k] = std::make_unique<D>(std::move(*d.at(j))); d.erase(j); }
        else if (o == "d.del") { d.erase(k); return; }
        else if (o == "d.sample") {
            int n = rd<int>();
            std::map<T, int> c;
            Distribution<T>& b = *d.at(k);
            for (int i = 0; i < n; i++) c[b.sample()]++;
            cout << "counts";
            for (auto& p : c) cout << " " << (std::is_same<T, string>::value ? "s" : "i") << p.first << " " << p.second;
            cout << "\n";
            return;
        }
        vals(*d.at(k));
    }
};
static Dists<DiscreteDistribution<string>> ds;
static Dists<DiscreteDistribution<int>> di;
static Dists<DiscreteDistribution<string, std::map>> dm;
// ---------------------------------------------------------------- spaces
template <typename T, template <typename...> class C> struct JS : public SerializableSpace<T, C>, public EnumerableSpace<T, C>, public SamplableSpace<T> {
    C<T> e;
    const C<T>& get_elements() const override { return e; }
    T sample() const override { return *e.begin(); }
    bool contains(const T& x) const override { return std::find(e.begin(), e.end(), x) != e.end(); }
};
template <typename T, template <typename...> class C> void js() {
    JS<T, C> s;
    int n = rd<int>();
    for (int i = 0; i < n; i++) s.e.insert(s.e.end(), rd<T>());
    json j = s.to_jsonable(s.get_elements());
    C<T> back = s.from_jsonable(json::parse(j.dump()));
    cout << "json " << (back == s.e) << " " << j.dump() << "\n";
}
// ---------------------------------------------------------------- outcomes
static void outcome() {
    double v = rd<double>();
    bool t = rd<int>();
    string s = rd<string>(), i = rd<string>();
    EnvironmentOutcome<string, TransitionType::REWARD, double, string> a(s, v, t, i);
    TransitionOutcome<string, TransitionType::COST, double, string> b(s, v, t, i);
    EnvironmentOutcome<string, TransitionType::COST, double> c(s, v, t);
    TransitionOutcome<string, TransitionType::REWARD, double> d(s, v, t);
    cout.precision(17);
    cout << "out " << a.observation << " " << a.value.reward() << " " << a.value.cost() << " " << a.termination << " " << a.info
         << " " << b.state << " " << b.value.reward() << " " << b.value.cost() << " " << b.termination << " " << b.info
         << " " << c.observation << " " << c.value.reward() << " " << c.value.cost() << " " << c.termination << " " << (c.info == nullptr)
         << " " << d.state << " " << d.value.reward() << " " << d.value.cost() << " " << d.termination << " " << (d.info == nullptr) << "\n";
}
// ---------------------------------------------------------------- memory domains
template <typename D> struct MD : public D {
    template <typename... A> MD(A... a) : D(a...) {}
    void init(const std::vector<string>& v) { this->_memory = this->_init_memory(v.begin(), v.end()); }
    void init3(const string& a, const string& b, const string& c) { this->_memory = this->_init_memory({a, b, c}); }
    Memory<string>* mem() { return this->_memory.get(); }
};
struct Hist : public HistoryDomain<string> {};
struct Fin : public FiniteHistoryDomain<string> {
    std::size_t n; int made = 0;
    Fin(std::size_t n) : n(n) {}
    std::size_t make_memory_maxlen() override { made++; return n; }
};
struct Mark : public MarkovianDomain<string> {};
struct Less_ : public MemorylessDomain<string> {};
template <typename D> void memdom(D& d) {
    for (string op = rd<string>(); op != "."; op = rd<string>()) {
        try {
            if (op == "check") { bool b = d.check_memory(); cout << "check " << b << "\n"; }
            else if (op == "checkm") { Mem m(rlen()); cout << "check " << d.check_memory(m) << "\n"; }
            else if (op == "last") { string x = d.get_last_state(); cout << "last " << x << "\n"; }
            else if (op == "setlast") { d.get_last_state() = rd<string>(); dump(*d.mem()); }
            else if (op == "lastm") { std::vector<string> v(rd<int>()); for (auto& x : v) x = rd<string>(); Mem m(v.begin(), v.end()); string x = D::get_last_state(m); cout << "last " << x << "\n"; }
            else if (op == "init") { std::vector<string> v(rd<int>()); for (auto& x : v) x = rd<string>(); d.init(v); dump(*d.mem()); }
            else if (op == "init3") { string a = rd<string>(), b = rd<string>(), c = rd<string>(); d.init3(a, b, c); dump(*d.mem()); }
            else if (op == "push") { d.mem()->push_back(rd<string>()); dump(*d.mem()); }
            else if (op == "has") { cout << "has " << bool(d.mem()) << "\n"; }
        } catch (const std::invalid_argument&) { cout << "throw invalid_argument\n"; }
        catch (const std::out_of_range&) { cout << "throw out_of_range\n"; }
    }
}
#endif
#if defined(VK_CORE) || defined(VK_EVENTS)
using namespace skdecide;
struct Ev {
    int v;
    Ev(int v = 0) : v(v) {}
    Ev(std::nullptr_t) : v(-1) {}
};
typedef ImplicitSpace<string> SS;
typedef ImplicitSpace<Ev> ES;
static std::map<string, int> made;
template <typename... A> static bool divides(int k, int v) { return k && v % k == 0; }
static std::size_t g_maxlen;
static std::vector<std::pair<string, double>> g_init;
// common part of the domains: spaces that depend on the length of the strings
template <typename B> struct Common : public B, public GoalDomain<string, SS>, public EventDomain<string, Ev, ES, ES, ES, ES> {
    typedef EventDomain<string, Ev, ES, ES, ES, ES> ED;
    using ED::get_enabled_events;
    using ED::get_applicable_actions;
    typedef std::unique_ptr<SS> SP;
    typedef std::unique_ptr<ES> EP;
    SP make_state_space() override { made["state"]++; return std::make_unique<SS>([](const string& s) { return s.size() < 4; }); }
    SP make_goals() override { made["goals"]++; return std::make_unique<SS>([](const string& s) { return s.size() > 2; }); }
    EP make_event_space() override { made["event"]++; return std::make_unique<ES>([](const Ev& e) { return e.v % 2 == 0; }); }
    EP make_action_space() override { made["action"]++; return std::make_unique<ES>([](const Ev& e) { return e.v % 4 == 0; }); }
    EP get_enabled_events(const Memory<string>& m) override { int n = m.size() + (m.empty() ? 0 : m.back().size()); return std::make_unique<ES>([n](const Ev& e) { return e.v < n; }); }
    EP get_applicable_actions(const Memory<string>& m) override { int n = m.size() + (m.empty() ? 0 : m.back().size()); return std::make_unique<ES>([n](const Ev& e) { return e.v > n; }); }
    std::size_t _get_memory_maxlen() override { return g_maxlen; }
    Memory<string>* mem() { return this->_memory.get(); }
};
template <typename B> struct Det : public Common<B> {
    std::unique_ptr<string> make_initial_state() override { made["initial"]++; return std::make_unique<string>(g_init[0].first); }
};
template <typename B> struct Unc : public Common<B> {
    std::unique_ptr<Distribution<string>> make_initial_state_distribution() override { made["initial"]++; return std::make_unique<DiscreteDistribution<string>>(g_init.begin(), g_init.end()); }
};
// full observability: the observation is the state; partial: "o" + state
typedef DeterministicInitializedDomain<string, string, Ev, Distribution<string>, SS, SS> DI;
typedef UncertainInitializedDomain<string, string, Ev, Distribution<string>, SS, SS> UI;
template <typename B> struct Full : public B, public FullyObservableDomain<string, Ev, SS> {};
template <typename B> struct Part : public B {
    std::unique_ptr<SS> make_observation_space() override { made["obs"]++; return std::make_unique<SS>([](const string& s) { return s.size() < 5 && s[0] == 'o'; }); }
    std::unique_ptr<Distribution<string>> get_observation_distribution(const string& s, const Ev& e) override { return std::make_unique<SingleValueDistribution<string>>("o" + s + (e.v == -1 ? "" : std::to_string(e.v))); }
};
#define CALL(name, expr) else if (op == name) { auto r_ = (expr); cout << name << " " << r_ << "\n"; }
template <typename D> void dom(D& d, bool det) {
    (void)det;
    for (string op = rd<string>(); op != "."; op = rd<string>()) {
        try {
            if (op == "mem") { if (!d.mem()) cout << "nomem\n"; else { cout << "mem " << show(d.mem()->maxlen()) << " " << d.mem()->size(); for (auto& x : *d.mem()) cout << " " << x; cout << "\n"; } }
            else if (op == "push") { string x = rd<string>(); if (d.mem()) d.mem()->push_back(x); }
            else if (op == "made") { cout << "made"; for (auto& p : made) cout << " " << p.first << " " << p.second; cout << "\n"; }
            CALL("reset", d.reset())
            CALL("state", d.is_state(rd<string>()))
            CALL("observation", d.is_observation(rd<string>()))
            CALL("goal", d.is_goal(rd<string>()))
            CALL("action", d.is_action(rd<int>()))
            CALL("event", d.get_event_space().contains(rd<int>()))
            CALL("last", d.get_last_state())
            CALL("check", d.check_memory())
            else if (op == "obs") { string s = rd<string>(); int e = rd<int>(); auto p = d.get_observation_distribution(s, e); cout << "obs " << p->sample() << " " << p->sample() << "\n"; }
            else if (op == "same") { cout << "same " << (&d.get_goals() == &d.get_goals()) << (&d.get_state_space() == &d.get_state_space()) << (&d.get_observation_space() == &d.get_observation_space()) << (&d.get_action_space() == &d.get_action_space()) << (&d.get_event_space() == &d.get_event_space()) << (&d.get_initial_state_distribution() == &d.get_initial_state_distribution()) << "\n"; }
            else if (op == "init") { std::set<string> s; for (int i = 0; i < 60; i++) s.insert(d.get_initial_state_distribution().sample()); cout << "init"; for (auto& x : s) cout << " " << x; cout << "\n"; }
#if defined(VK_EVENTS)
            else if (op == "enabled") { int e = rd<int>(); bool b = d.is_enabled_event(e); cout << op << " " << b << "\n"; }
            else if (op == "applicable") { int e = rd<int>(); bool b = d.is_applicable_action(e); cout << op << " " << b << "\n"; }
            else if (op == "enabled0") { int e = rd<int>(); bool b = d.get_enabled_events()->contains(e); cout << op << " " << b << "\n"; }
            else if (op == "applicable0") { int e = rd<int>(); bool b = d.get_applicable_actions()->contains(e); cout << op << " " << b << "\n"; }
            else if (op == "enabledm" || op == "applicablem") {
                std::vector<string> v(rd<int>()); for (auto& x : v) x = rd<string>();
                Memory<string> m(v.begin(), v.end()); int e = rd<int>();
                bool b = (op == "enabledm" ? d.is_enabled_event(e, m) : d.is_applicable_action(e, m)); cout << op << " " << b << "\n";
            }
#endif
            else { cout << "unknown " << op << "\n"; }
        } catch (const std::invalid_argument&) { cout << "throw invalid_argument\n"; }
        catch (const std::out_of_range&) { cout << "throw out_of_range\n"; }
    }
}
static void dom_op() {
    string kind = rd<string>();
    g_maxlen = rlen();
    g_init.resize(rd<int>());
    for (auto& p : g_init) { p.first = rd<string>(); p.second = rd<double>(); }
    made.clear();
    if (kind == "df") { Full<Det<DI>> d; dom(d, true); }
    else if (kind == "dp") { Part<Det<DI>> d; dom(d, true); }
    else if (kind == "uf") { Full<Unc<UI>> d; dom(d, false); }
    else { Part<Unc<UI>> d; dom(d, false); }
}
#endif
#if defined(VK_CORE)
// ---------------------------------------------------------------- containers and conversions
struct KH { int a, b; struct Hash { std::size_t operator()(const KH& k) const { return k.a; } }; struct Equal { bool operator()(const KH& x, const KH& y) const { return x.a == y.a; } }; };
struct KL { int a, b; struct Less { bool operator()(const KL& x, const KL& y) const { return x.a < y.a; } }; };
template <typename R> struct Wrap { R r; int tag; struct Key { const R& operator()(const Wrap& w) const { return w.r; } }; };
template <typename R> void containers() {
    int n = rd<int>();
    typename SetTypeDeducer<R>::Set s;
    typename SetTypeDeducer<Wrap<R>, R>::Set w;
    typename MapTypeDeducer<R, int>::Map m;
    typename MapTypeDeducer<Wrap<R>, int, R>::Map wm;
    std::ostringstream o;
    for (int i = 0; i < n; i++) {
        string op = rd<string>();
        R r{rd<int>(), i};
        if (op == "add") o << s.insert(r).second << w.insert(Wrap<R>{r, i}).second << m.insert({r, i}).second << wm.insert({Wrap<R>{r, i}, i}).second << " ";
        else if (op == "del") o << s.erase(r) << w.erase(Wrap<R>{r, i}) << m.erase(r) << wm.erase(Wrap<R>{r, i}) << " ";
        else { auto a = s.find(r); auto b = w.find(Wrap<R>{r, i}); auto c = m.find(r); auto d = wm.find(Wrap<R>{r, i}); o << (a == s.end() ? -1 : a->b) << "," << (b == w.end() ? -1 : b->tag) << "," << (c == m.end() ? -1 : c->second) << "," << (d == wm.end() ? -1 : d->second) << " "; }
    }
    cout << "set " << o.str() << s.size() << " " << w.size() << " " << m.size() << " " << wm.size() << "\n";
}
static void convert() {
    string t = rd<string>(), s;
    std::getline(in, s);
    s = s.substr(1);
    try {
        if (t == "int") { int x = 77; StringConverter::to(s, x); int y; StringConverter::to(StringConverter::from(x), y); cout << "conv " << x << " " << (x == y) << "\n"; }
        else if (t == "double") { double x = 77; StringConverter::to(s, x); cout.precision(17); cout << "conv " << x << " " << StringConverter::from(x) << "\n"; }
        else { string x; StringConverter::to(s, x); cout << "conv " << x << " " << (StringConverter::from(x) == x) << "\n"; }
    } catch (const std::ios_base::failure&) { cout << "throw failure\n"; }
}
int main() {
    for (string op; in >> op && op != "end";) {
        cout << "# " << op << "\n";
        if (op.substr(0, 2) == "m.") mem_op(op);
        else if (op.substr(0, 2) == "d.") { string k = rd<string>(); if (k == "s") ds.op(op); else if (k == "i") di.op(op); else dm.op(op); }
        else if (op == "single") { string v = rd<string>(); auto d = std::make_unique<SingleValueDistribution<string>>(v); SingleValueDistribution<string> c(*d); d.reset(); Distribution<string>& b = c; cout << "single " << b.sample() << " " << b.sample() << " " << c.get_value() << " " << c.get_values().size() << " " << c.get_values().begin()->first << " " << c.get_values().begin()->second << " " << c.DiscreteDistribution<string>::sample() << "\n"; }
        else if (op == "implicit") { int k = rd<int>(), n = rd<int>(); auto c = std::make_shared<int>(0); ImplicitDistribution<int> d([c]() { return ++*c; }); ImplicitSpace<int> s([k](const int& x) { return k && x % k == 0; }); cout << "implicit"; for (int i = 0; i < n; i++) { int x = d.sample(); cout << " " << x << " " << s.contains(x); } cout << "\n"; }
        else if (op == "js.us") js<string, std::unordered_set>();
        else if (op == "js.ui") js<int, std::unordered_set>();
        else if (op == "js.vi") js<int, std::vector>();
        else if (op == "js.vs") js<string, std::vector>();
        else if (op == "js.ss") js<string, std::set>();
        else if (op == "outcome") outcome();
        else if (op == "hist") { MD<Hist> d; memdom(d); }
        else if (op == "fin") { MD<Fin> d(rlen()); memdom(d); cout << "made " << d.made << "\n"; }
        else if (op == "mark") { MD<Mark> d; memdom(d); }
        else if (op == "less") { MD<Less_> d; memdom(d); }
        else if (op == "dom") dom_op();
        else if (op == "set.h") containers<KH>();
        else if (op == "set.l") containers<KL>();
        else if (op == "conv") convert();
        else { cout << "unknown " << op << "\n"; }
    }
    cout << "done" << std::endl;
}
#elif defined(VK_EVENTS)
int main() {
    for (string op; in >> op && op != "end";) { cout << "# " << op << "\n"; dom_op(); }
    cout << "done" << std::endl;
}
#elif defined(VK_EXEC)
using namespace skdecide;
template <typename X> void loop(int n, int us) {
    std::vector<int> v(n);
    for (int i = 0; i < n; i++) v[i] = i;
    std::list<int> l(v.begin(), v.end());
    std::vector<std::atomic<int>> seen(n), seen2(n);
    for (auto& s : seen) s = 0;
    for (auto& s : seen2) s = 0;
    X x;
    typename X::Mutex m;
    typename X::RecursiveMutex r;
    long in1 = 0, in2 = 0, in3 = 0;     // plain: protected by the three kinds of critical sections
    std::atomic<int> cur{0}, peak{0};
    std::for_each(X::policy, v.begin(), v.end(), [&](int& i) {
        int c = ++cur;
        for (int p = peak; c > p && !peak.compare_exchange_weak(p, c);) {}
        seen[i]++;
        if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
        x.protect([&]() { long t = in1; if (us) std::this_thread::yield(); in1 = t + 1; });
        x.protect([&]() { long t = in2; if (us) std::this_thread::yield(); in2 = t + 1; }, m);
        x.protect([&]() { x.protect([&]() { long t = in3; if (us) std::this_thread::yield(); in3 = t + 1; }, r); }, r);
        --cur;
    });
    std::for_each(X::policy, l.begin(), l.end(), [&](const int& i) { seen2[i]++; });
    int bad = 0;
    for (int i = 0; i < n; i++) bad += seen[i] != 1 || seen2[i] != 1;
    cout << "loop " << bad << " " << in1 << " " << in2 << " " << in3 << " " << peak << " " << (X::print_type().empty() ? 0 : 1) << "\n";
}
int main() {
    for (string op; in >> op && op != "end";) {
        int n = rd<int>(), us = rd<int>();
        cout << "# " << op << "\n";
        if (op == "seq") loop<SequentialExecution>(n, us);
        else loop<ParallelExecution>(n, us);
    }
    cout << "done" << std::endl;
}
#endif
