"""Planted bugs of the C++ solvers and core."""
CPP = '''"""builds the driver beside this file against ./cpp/src and runs scenarios"""
import os, subprocess, tempfile, shutil, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
T = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, T, True)


def build(solver, src='harness.cc'):
    out = T + '/' + solver
    subprocess.check_call(['g++', '-std=c++17', '-O1', '-w', '-DVK_' + solver, '-I' + HERE + '/inc', '-I' + os.getcwd() + '/cpp/src', HERE + '/' + src, '-o', out, '-pthread'])
    return out


def run(binary, params, g, ops):
    """g: [(goal, h, features, {action: [(p, next, cost)]})]"""
    o = ['%s %s' % kv for kv in params.items()] + ['graph %d' % len(g)]
    for goal, h, f, acts in g:
        o.append(f"{goal} {goal} {h} {len(f)} {' '.join(map(str, f))} {len(acts)}")
        for a, outs in acts.items():
            o.append(f"{a} {len(outs)} " + ' '.join(f'{p!r} {t} {float(c)!r}' for p, t, c in outs))
    r = subprocess.run([binary], input='\\n'.join(o + list(ops) + ['end']) + '\\n', stdout=subprocess.PIPE, text=True, timeout=100)
    lines = [l.split(' ') for l in r.stdout.splitlines()]
    assert r.returncode == 0 and lines[-1][0] == 'done', r
    return lines


def values(lines):
    return {int(l[1]): (float(l[3]) if l[3] != 'none' else None) for l in lines if l[0] == 'q'}
'''
HF = {'cpp.py': CPP, 'harness.cc': '/verif/vk/cpp/harness.cc', 'inc': '/verif/vk/cpp/inc'}
S = 'cpp/src/hub/solver/'

CHAIN = '''
import cpp
g = [(1, 0, [0], {}), (0, 0, [1], {0: [(1, 0, 4)]}), (0, 0, [2], {0: [(1, 1, 2)]}), (0, 0, [3], {0: [(1, 2, 1)], 1: [(1, 4, 3)]}), (0, 0, [4], {0: [(1, 0, 5)]})]
'''
bug('C12-solved-tip', 'C12', [(S + 'astar.hh', 'if (!(best_tip_node->solved)) { current_node->fscore = 0; } // goal state', 'current_node->fscore = 0; // goal state')], CHAIN + '''
b = cpp.build('ASTAR')
l = cpp.run(b, {}, g, ['solve 2', 'query 2', 'solve 3', 'query 3', 'query 2'])
assert cpp.values(l) == {2: 6, 3: 7}, l
''', 'a second search, from a state farther than the first one, that ends on a state already solved', 'the cost-to-go of the state already solved is forgotten: values of the second plan are wrong', files=HF)

bug('C14-bfws-solved-tip', 'C14', [(S + 'bfws.hh', 'if (!(best_tip_node->solved)) { current_node->fscore = 0; } // goal state', 'current_node->fscore = 0; // goal state')], CHAIN + '''
b = cpp.build('BFWS')
l = cpp.run(b, {}, g[:4], ['solve 2', 'query 2'])
g[3] = (0, 0, [3], {0: [(1, 2, 1)]})
l = cpp.run(b, {}, g[:4], ['solve 2', 'query 2', 'solve 3', 'query 3'])
assert cpp.values(l) == {2: 6, 3: 7}, l
''', 'a second BFWS search that ends on a state already solved', 'values of the second plan are wrong', files=HF)

bug('C13-lrtdp-rare', 'C13', [(S + 'lrtdp.hh', 'if (!(ns->solved) && (visited.find(ns) == visited.end())) {', 'if (!(ns->solved) && (visited.find(ns) == visited.end()) && (std::get<0>(o) > _epsilon)) {')], '''
import cpp
b = cpp.build('LRTDP')
# 3 -> goal (p .95), 2 (p .05); 2 -> 1 -> goal costs 40 in all, unknown to the heuristic
g = [(1, 0, [], {}), (0, 0, [], {0: [(1., 0, 30)]}), (0, 0, [], {0: [(1., 1, 10)]}), (0, 0, [], {0: [(.95, 0, 1), (.05, 2, 1)]})]
for seed in range(1, 9):
    l = cpp.run(b, {'epsilon': .1, 'seed': seed, 'rollouts': 1000}, g, ['solve 3', 'query 3'])
    assert abs(cpp.values(l)[3] - 3) < .11, (seed, l)
''', 'an outcome whose probability is below epsilon, leading to states not yet converged', 'states are labelled solved although an unlikely successor has not converged', files=HF)

bug('C13-ilao-discount', 'C13', [(S + 'ilaostar.hh', '''            a->value = 0;
            for (const auto& o : a->outcomes) {
                a->value += std::get<0>(o) * (std::get<1>(o) + (_discount * std::get<2>(o)->best_value));''', '''            a->value = 0;
            for (const auto& o : a->outcomes) {
                a->value += std::get<0>(o) * (std::get<1>(o) + ((a->outcomes.size() > 1 ? (double) _discount : 1.0) * std::get<2>(o)->best_value));''')], '''
import cpp
b = cpp.build('ILAOSTAR')
g = [(1, 0, [], {}), (0, 0, [], {0: [(1., 0, 4)]}), (0, 0, [], {0: [(1., 1, 2)]}), (0, 0, [], {0: [(.5, 0, 1), (.5, 2, 1)]})]
for d in (1., .5):
    l = cpp.run(b, {'epsilon': .0001, 'discount': d}, g, ['solve 3', 'query 3'])
    w = 1 + .5 * d * (2 + d * 4)
    assert abs(cpp.values(l)[3] - w) < .001, (d, w, l)
''', 'a discount below 1 and a deterministic action', 'the discount does not apply to deterministic actions', files=HF)

bug('C14-iw-second', 'C14', [(S + 'iw.hh', 'for (std::size_t j = i; j < k; j++) {', 'for (std::size_t j = i; j < k && i > 1; j++) {')], '''
import cpp
b = cpp.build('IW')
one = lambda t: [(1., t, 1)]
g = [(0, 0, (0, 0, 0, 0), {0: one(1), 1: one(2), 2: one(3)}), (0, 0, (0, 0, 1, 0), {0: one(4)}), (0, 0, (0, 1, 0, 0), {0: one(4)}), (0, 0, (1, 0, 0, 0), {0: one(5)}),
     (0, 0, (0, 1, 1, 0), {0: one(7)}), (0, 0, (0, 0, 0, 1), {0: one(6)}), (0, 0, (1, 0, 0, 1), {0: one(7)}), (1, 0, (2, 2, 2, 2), {})]
l = cpp.run(b, {}, g, ['solve 0', 'query 0'])
assert cpp.values(l)[0] == 3, l
''', 'four features or more and width 2', 'some pairs of features are never looked at: novel states are pruned', files=HF)

bug('C15-late-discount', 'C15', [(S + 'mcts.hh', '''                reward += gamma_n * (o.reward());
                gamma_n *= solver.discount();
''', '''                gamma_n *= solver.discount();
                reward += gamma_n * (o.reward());
''')], '''
import cpp
b = cpp.build('MCTS')
g = [(1, 0, [], {}), (0, 0, [], {0: [(1., 0, 4)]}), (0, 0, [], {0: [(1., 1, 2)]}), (0, 0, [], {0: [(1., 2, 1)]})]
for d in (1., .5):
    l = cpp.run(b, {'rollouts': 1, 'discount': d}, g, ['solve 3', 'query 3'])
    assert cpp.values(l)[3] == -(1 + d * (2 + d * 4)), (d, l)
''', 'a discount below 1 and a rollout of the default policy', 'the default policy discounts its rewards one step too early', files=HF)

bug('C15-depth', 'C15', [(S + 'mcts.hh', 'while(!termination && current_depth < solver.max_depth()) {', 'while(!termination && current_depth <= solver.max_depth()) {')], '''
import cpp
b = cpp.build('MCTS')
g = [(1, 0, [], {}), (0, 0, [], {0: [(1., 0, 4)]}), (0, 0, [], {0: [(1., 1, 2)]}), (0, 0, [], {0: [(1., 2, 1)]})]
for depth, w in ((1, -1), (2, -3), (3, -7)):
    l = cpp.run(b, {'rollouts': 1, 'depth': depth}, g, ['solve 3', 'query 3'])
    assert cpp.values(l)[3] == w, (depth, l)
''', 'an episode that the depth limit cuts while the default policy plays', 'one step more than the maximum depth is simulated', files=HF)
