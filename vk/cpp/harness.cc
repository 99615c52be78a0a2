// Drives one header-only C++ solver of /repo/cpp/src/hub/solver on an explicit graph read from stdin, and prints what the
// solver answers.  Built with -DVK_<SOLVER>; the verdict is computed by the Python side.  The domain below also monitors
// that the solver only applies applicable actions (line ILLEGAL) and counts its calls (line BUDGET when exhausted).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <unistd.h>
#if defined(VK_PAR)         // the parallel execution policy, on real threads
#include <atomic>
#include <execution>
#define EX ParallelExecution
#else
#define EX SequentialExecution
#endif
#if defined(VK_ASTAR)
#include "hub/solver/astar.hh"
#elif defined(VK_AOSTAR)
#include "hub/solver/aostar.hh"
#elif defined(VK_ILAOSTAR)
#include "hub/solver/ilaostar.hh"
#elif defined(VK_LRTDP)
#include "hub/solver/lrtdp.hh"
#elif defined(VK_IW)
#include "hub/solver/iw.hh"
#elif defined(VK_RIW)
#include "hub/solver/riw.hh"
#elif defined(VK_BFWS)
#include "hub/solver/bfws.hh"
#elif defined(VK_MCTS)
#include "hub/solver/mcts.hh"
#endif

using std::size_t;

#if defined(VK_PAR)
static std::atomic<long> g_calls{0};
static long g_budget = 5000000;
#else
static long g_calls = 0, g_budget = 5000000;
#endif
static bool g_trace = false;   // during solve, print the transitions asked by the solver
static void tick() {
#if defined(VK_PAR)
    vkpar::delay();
#endif
#if defined(VK_PAR)
    if (g_calls.fetch_add(1, std::memory_order_relaxed) >= g_budget)
#else
    if (++g_calls > g_budget)
#endif
    { std::cout << "BUDGET" << std::endl; _exit(0); }
}

struct Dom {
    struct State {
        int id = -1;
        std::string print() const { return "s" + std::to_string(id); }
        struct Hash { size_t operator()(const State& s) const { return (size_t) s.id * 7919u; } };
        struct Equal { bool operator()(const State& a, const State& b) const { return a.id == b.id; } };
    };
    struct Event {
        int id = -1;
        std::string print() const { return "a" + std::to_string(id); }
        struct Hash { size_t operator()(const Event& s) const { return (size_t) s.id; } };
        struct Equal { bool operator()(const Event& a, const Event& b) const { return a.id == b.id; } };
    };
    typedef Event Action;
    struct Out { double p; int s; double c; };
    struct Act { int id; std::vector<Out> outs; };
    struct St { bool goal, term; double h; std::vector<int> f; std::vector<Act> acts; };
    struct SD { int s; double p; State state() const { return State{s}; } double probability() const { return p; } };
    struct Distr { std::vector<SD> v; std::vector<SD> get_values() const { return v; } };
    struct ActSpace {
        std::vector<Event> v; Dom* d;
        std::vector<Event> get_elements() const { return v; }
        Event sample() const { return v[d->draw() % v.size()]; }
    };
    struct TransitionOutcome {
        int s = -1; double r = 0; bool t = false;
        State state() const { return State{s}; }
        double reward() const { return r; }
        bool terminal() const { return t; }
    };
    std::vector<St> st;
    std::mt19937 g;
#if defined(VK_PAR)     // nothing shared between the threads: a lock here would hide races
    unsigned draw() { return vkpar::draw(); }
    double uniform() { return (vkpar::draw() >> 8) / 16777216.0; }
#else
    unsigned draw() { return g(); }
    double uniform() { return std::uniform_real_distribution<>(0, 1)(g); }
#endif
    int init = 0, cur = -1;
    long resets = 0, steps = 0, longest = 0;   // steps since the last reset
    size_t capacity = 1;
    struct Env { int cur = -1; long resets = 0, steps = 0, longest = 0; char pad[64]; };
    std::vector<Env> envs;  // one environment per parallel domain
    bool wrong(const size_t* t) const {
        if (!t || *t < envs.size()) return false;
        std::cout << "ILLEGAL domain " << *t << " of " << envs.size() << std::endl; _exit(0);
    }
    bool env = false;       // the solver only uses the environment (reset, step): its own state must follow
    void in_sync(int s, const size_t* t) {
        int cur = (envs.empty() || !t || wrong(t)) ? this->cur : envs[*t].cur;
        if (env && !envs.empty() && !t) return;     // no domain named: any of them may answer
        if (env && s != cur) { std::cout << "ILLEGAL the solver believes in s" << s << " but the environment is in s" << cur << std::endl; _exit(0); }
    }
    bool per_state_cost = false;

    const St& at(int s) {
        if (s < 0 || s >= (int) st.size()) { std::cout << "ILLEGAL unknown state " << s << std::endl; _exit(0); }
        return st[s];
    }
    const Act& act(int s, int a) {
        for (const auto& x : at(s).acts) if (x.id == a) return x;
        std::cout << "ILLEGAL action a" << a << " is not applicable in s" << s << std::endl; _exit(0);
    }
    ActSpace get_applicable_actions(const State& s, const size_t* t = nullptr) {
        tick();
        if (g_trace) std::cout << "E " << s.id << "\n";
        in_sync(s.id, t);
        ActSpace r; r.d = this;
        for (const auto& a : at(s.id).acts) r.v.push_back(Event{a.id});
        return r;
    }
    State get_next_state(const State& s, const Event& a, const size_t* = nullptr) {
        tick();
        int t = act(s.id, a.id).outs[0].s;
        if (g_trace) std::cout << "N " << s.id << " " << a.id << " " << t << "\n";
        return State{t};
    }
    Distr get_next_state_distribution(const State& s, const Event& a, const size_t* = nullptr) {
        tick();
        Distr d;
        for (const auto& o : act(s.id, a.id).outs) d.v.push_back(SD{o.s, o.p});
        return d;
    }
    double get_transition_cost(const State& s, const Event& a, const State& ns, const size_t* = nullptr) {
        tick();
        for (const auto& o : act(s.id, a.id).outs) if (o.s == ns.id) return o.c;
        std::cout << "ILLEGAL cost of s" << s.id << " a" << a.id << " s" << ns.id << std::endl; _exit(0);
    }
    double get_transition_reward(const State& s, const Event& a, const State& ns, const size_t* = nullptr) { return -get_transition_cost(s, a, ns); }
    bool is_goal(const State& s, const size_t* = nullptr) { tick(); return at(s.id).goal; }
    bool is_terminal(const State& s, const size_t* = nullptr) { tick(); return at(s.id).term; }
    size_t get_parallel_capacity() { return capacity; }
    void reset(const size_t* t = nullptr) {
        tick();
        if (!envs.empty() && t && !wrong(t)) { Env& e = envs[*t]; e.resets++; e.cur = init; e.steps = 0; return; }
        resets++; cur = init; steps = 0;
    }
    TransitionOutcome sample(const State& s, const Event& a, const size_t* = nullptr) {
        tick();
        const Act& x = act(s.id, a.id);
        double u = uniform(), acc = 0;
        const Out* o = &x.outs.back();
        for (const auto& c : x.outs) { acc += c.p; if (u < acc) { o = &c; break; } }
        TransitionOutcome t; t.s = o->s; t.r = -o->c; t.t = at(o->s).term;
        return t;
    }
    TransitionOutcome step(const Event& a, const size_t* th = nullptr) {
        if (!envs.empty() && th && !wrong(th)) {
            Env& e = envs[*th];
            if (e.cur < 0) { std::cout << "ILLEGAL step before reset" << std::endl; _exit(0); }
            TransitionOutcome t = sample(State{e.cur}, a);
            e.cur = t.s;
            if (++e.steps > e.longest) e.longest = e.steps;
            return t;
        }
        if (cur < 0) { std::cout << "ILLEGAL step before reset" << std::endl; _exit(0); }
        TransitionOutcome t = sample(State{cur}, a);
        cur = t.s;
        if (++steps > longest) longest = steps;
        return t;
    }
};

typedef std::vector<int> FV;
static std::map<std::string, double> P;
static double par(const std::string& k, double d) { auto i = P.find(k); return i == P.end() ? d : i->second; }

static bool goal2(Dom& d, const Dom::State& s) { return d.is_goal(s); }
static double heur2(Dom& d, const Dom::State& s) { tick(); return d.at(s.id).h; }
static bool goal3(Dom& d, const Dom::State& s, const size_t*) { return d.is_goal(s); }
static double heur3(Dom& d, const Dom::State& s, const size_t*) { tick(); return d.at(s.id).h; }
static std::unique_ptr<FV> feat2(Dom& d, const Dom::State& s) { tick(); return std::make_unique<FV>(d.at(s.id).f); }
static std::unique_ptr<FV> feat3(Dom& d, const Dom::State& s, const size_t*) { tick(); return std::make_unique<FV>(d.at(s.id).f); }

template <class S> static auto explored(S& s, int) -> decltype(s.get_nb_of_explored_states()) { return s.get_nb_of_explored_states(); }
template <class S> static auto explored(S& s, long) -> decltype(s.nb_of_explored_states()) { return s.nb_of_explored_states(); }
template <class S> static size_t explored(S&, ...) { return (size_t) -1; }
template <class S> static auto pruned(S& s, int) -> decltype(s.get_nb_of_pruned_states()) { return s.get_nb_of_pruned_states(); }
template <class S> static size_t pruned(S&, ...) { return (size_t) -1; }
template <class S> static auto rollouts(S& s, int) -> decltype(s.get_nb_rollouts()) { return s.get_nb_rollouts(); }
template <class S> static auto rollouts(S& s, long) -> decltype(s.nb_rollouts()) { return s.nb_rollouts(); }
template <class S> static size_t rollouts(S&, ...) { return (size_t) -1; }
template <class S> static auto policy(S& s, int) -> decltype(s.policy(), void()) {
    for (const auto& e : s.policy()) std::cout << "pol " << e.first.id << " " << e.second.first.id << " " << e.second.second << "\n";
}
template <class S> static void policy(S&, ...) {}
template <class S> static auto scores(S& s, int) -> decltype(s.get_intermediate_scores(), void()) {
    for (const auto& e : s.get_intermediate_scores()) std::cout << "score " << std::get<1>(e) << " " << std::get<2>(e) << "\n";
}
template <class S> static void scores(S&, ...) {}
template <class S> static auto dump_prefix(S& s, int) -> decltype(s.action_prefix(), void()) {
    std::cout << "prefix";
    for (const auto& a : s.action_prefix()) std::cout << " " << a.id;
    std::cout << "\n";
}
template <class S> static void dump_prefix(S&, ...) {}

template <class S> static void dump_rollouts(S& s, int x) {       // before the action is taken (which may free nodes)
    std::cout << "value " << x << " ";
    try { std::cout << s.get_best_value(Dom::State{x}); } catch (const std::exception&) { std::cout << "none"; }
    std::cout << " " << s.is_solution_defined_for(Dom::State{x}) << std::endl;
    policy(s, 0);
    std::cout << "endpol" << std::endl;
}

template <class S> static int drive(S& solver, Dom& d) {
    std::string op;
    while (std::cin >> op) {
        int s;
        if (op == "solve") {
            std::cin >> s;
            d.init = s;
            long c0 = g_calls;
            std::string r = "ok";
            g_trace = par("trace", 0) != 0;
            try { solver.solve(Dom::State{s}); } catch (const std::exception& e) { r = std::string("exc ") + e.what(); }
            g_trace = false;
            std::cout << "solve " << s << " " << (g_calls - c0) << " " << (long) explored(solver, 0) << " " << (long) pruned(solver, 0) << " " << (long) rollouts(solver, 0) << " " << r << std::endl;
            scores(solver, 0);
        } else if (op == "clear") {
            solver.clear();
            std::cout << "clear " << (long) explored(solver, 0) << std::endl;
        } else if (op == "query") {             // answers for one state, no side effect expected
            std::cin >> s;
            bool def = solver.is_solution_defined_for(Dom::State{s});
            std::cout << "q " << s << " " << def << " ";
            try { std::cout << solver.get_best_value(Dom::State{s}); } catch (const std::exception&) { std::cout << "none"; }
            std::cout << std::endl;
        } else if (op == "act") {               // the action to execute in one state
            std::cin >> s;
            int a = -1;
            try { a = solver.get_best_action(Dom::State{s}).id; } catch (const std::exception&) {}
            std::cout << "act " << s << " " << a << " " << (long) explored(solver, 0) << std::endl;
        } else if (op == "pol") {
            policy(solver, 0);
            std::cout << "endpol" << std::endl;
        } else if (op == "run") {               // closed loop: (re)solve, act, move; prints the executed steps
            int k; std::cin >> s >> k;
            d.init = s;
            d.cur = s;
            for (int i = 0; i < k && !d.at(s).goal && !d.at(s).term; i++) {
                int a = -1;
                std::string r = "ok";
                try {
                    solver.solve(Dom::State{s});
                    a = solver.get_best_action(Dom::State{s}).id;
                } catch (const std::exception& e) { r = e.what(); }
                std::cout << "step " << s << " " << a << " ";
                try { std::cout << solver.get_best_value(Dom::State{s}); } catch (const std::exception&) { std::cout << "none"; }
                std::cout << " " << (long) explored(solver, 0) << " " << r << std::endl;
                if (a < 0) break;
                s = d.sample(Dom::State{s}, Dom::Event{a}).s;
            }
            std::cout << "endrun " << s << std::endl;
        } else if (op == "episode") {           // like run, for solvers that replay the executed actions from the initial state
            int k; std::cin >> s >> k;
            d.init = s;
            for (int i = 0; i < k && !d.at(s).goal && !d.at(s).term; i++) {
                int a = -1;
                std::string r = "ok";
                d.longest = 0;
                try {
                    solver.solve(Dom::State{s});
                    dump_rollouts(solver, s);
                    a = solver.get_best_action(Dom::State{s}).id;
                } catch (const std::exception& e) { r = e.what(); }
                std::cout << "step " << s << " " << a << " " << (long) rollouts(solver, 0) << " " << (d.longest - i) << " " << (long) explored(solver, 0) << " " << r << std::endl;
                if (a < 0) break;
                s = d.sample(Dom::State{s}, Dom::Event{a}).s;
            }
            std::cout << "endrun " << s << std::endl;
        } else if (op == "prefix") {
            dump_prefix(solver, 0);
        } else if (op == "end") {
#if defined(VK_PAR)
            std::cout << "par " << vkpar::loops << " " << vkpar::calls << " " << vkpar::overlaps << std::endl;
#endif
            std::cout << "done " << g_calls << " " << d.resets << std::endl;
            return 0;
        }
    }
    return 0;
}

int main() {
    spdlog::set_level(spdlog::level::off);
    std::cout.precision(17);
    std::string w;
    Dom d;
    while (std::cin >> w && w != "graph") { double v; std::cin >> v; P[w] = v; }
    int n; std::cin >> n;
    d.st.resize(n);
    for (auto& s : d.st) {
        int na, nf; std::cin >> s.goal >> s.term >> s.h >> nf;
        s.f.resize(nf);
        for (auto& f : s.f) std::cin >> f;
        std::cin >> na;
        s.acts.resize(na);
        for (auto& a : s.acts) {
            int no; std::cin >> a.id >> no;
            a.outs.resize(no);
            for (auto& o : a.outs) std::cin >> o.p >> o.s >> o.c;
        }
    }
    d.g.seed((unsigned) par("seed", 1));
    g_budget = (long) par("budget", 5e6);
    d.env = par("env", 0) != 0;
    bool dbg = par("debug", 0) != 0;
#if defined(VK_PAR)
    d.capacity = (size_t) par("capacity", 4);
    d.envs.resize(d.capacity);
    vkpar::threads = (unsigned) par("threads", 4);
    vkpar::jitter = (unsigned) par("jitter", 0);
    vkpar::salt = (unsigned) par("seed", 1) * 7919u;
#endif
    auto run = [&](auto& s) { spdlog::set_level(spdlog::level::off); return drive(s, d); };
    using namespace skdecide;
#if defined(VK_ASTAR)
    AStarSolver<Dom, EX> s(d, goal2, heur2, dbg);
    return run(s);
#elif defined(VK_AOSTAR)
    AOStarSolver<Dom, EX> s(d, goal2, heur2, par("discount", 1), (size_t) par("tips", 1), par("cycles", 0) != 0, dbg);
    return run(s);
#elif defined(VK_ILAOSTAR)
    ILAOStarSolver<Dom, EX> s(d, goal2, heur2, par("discount", 1), par("epsilon", 0.001), dbg);
    return run(s);
#elif defined(VK_LRTDP)
    LRTDPSolver<Dom, EX> s(d, goal3, heur3, par("labels", 1) != 0, (size_t) par("time", 3600000), (size_t) par("rollouts", 100000),
                       (size_t) par("depth", 1000), par("discount", 1), par("epsilon", 0.001), par("garbage", 0) != 0, dbg);
    return run(s);
#elif defined(VK_IW)
    std::function<bool (const double&, const size_t&, const size_t&, const double&, const size_t&, const size_t&)> ord = nullptr;
    if (par("order", 0) == 1) ord = [](const double& g, const size_t& n, const size_t& dd, const double& g2, const size_t& n2, const size_t& d2) { return n > n2 || (n == n2 && g > g2) || (n == n2 && g == g2 && dd > d2); };
    if (par("order", 0) == 2) ord = [](const double&, const size_t&, const size_t& dd, const double&, const size_t&, const size_t& d2) { return dd > d2; };
    if (par("hash", 0) != 0) { IWSolver<Dom, FV, StateFeatureHash, EX> s(d, feat2, ord, (size_t) par("time", 0), dbg); return run(s); }
    IWSolver<Dom, FV, DomainStateHash, EX> s(d, feat2, ord, (size_t) par("time", 0), dbg);
    return run(s);
#elif defined(VK_BFWS)
    auto term = [](Dom& dd, const Dom::State& st) { return dd.is_goal(st); };
    if (par("hash", 0) != 0) { BFWSSolver<Dom, FV, StateFeatureHash, EX> s(d, feat2, heur2, term, dbg); return run(s); }
    BFWSSolver<Dom, FV, DomainStateHash, EX> s(d, feat2, heur2, term, dbg);
    return run(s);
#elif defined(VK_RIW)
    size_t tb = (size_t) par("time", 3600000), rb = (size_t) par("rollouts", 100000), md = (size_t) par("depth", 1000);
    double ex = par("exploration", 0.25), di = par("discount", 1);
    bool gc = par("garbage", 0) != 0;
    if (par("hash", 0) != 0) {
        if (par("sim", 0) != 0) { RIWSolver<Dom, FV, StateFeatureHash, SimulationRollout, EX> s(d, feat3, tb, rb, md, ex, di, gc, dbg); return run(s); }
        RIWSolver<Dom, FV, StateFeatureHash, EnvironmentRollout, EX> s(d, feat3, tb, rb, md, ex, di, gc, dbg); return run(s);
    }
    if (par("sim", 0) != 0) { RIWSolver<Dom, FV, DomainStateHash, SimulationRollout, EX> s(d, feat3, tb, rb, md, ex, di, gc, dbg); return run(s); }
    RIWSolver<Dom, FV, DomainStateHash, EnvironmentRollout, EX> s(d, feat3, tb, rb, md, ex, di, gc, dbg);
    return run(s);
#elif defined(VK_MCTS)
    size_t tb = (size_t) par("time", 3600000), rb = (size_t) par("rollouts", 1000), md = (size_t) par("depth", 1000);
    double di = par("discount", 1);
    bool gc = par("garbage", 0) != 0;
    int mode = (int) par("mode", 0);
    if (mode == 0) { MCTSSolver<Dom, EX, DistributionTransitionMode> s(d, tb, rb, md, di, gc, dbg); return run(s); }
    if (mode == 1) { MCTSSolver<Dom, EX, SampleTransitionMode> s(d, tb, rb, md, di, gc, dbg); return run(s); }
    MCTSSolver<Dom, EX, StepTransitionMode> s(d, tb, rb, md, di, gc, dbg);
    return run(s);
#endif
}
