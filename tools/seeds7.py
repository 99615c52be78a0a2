"""Planted bugs: C++ core and garbage collection of the compiled solvers."""
CPP = open('/verif/tools/seeds5.py').read().split("CPP = '''")[1].split("'''\nHF")[0].replace('\\\\n', '\\n')
HF = {'cpp.py': CPP, 'harness.cc': '/verif/vk/cpp/harness.cc', 'inc': '/verif/vk/cpp/inc'}
S = 'cpp/src/hub/solver/'
MAIN = '''
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    open(d + '/m.cc', 'w').write(SRC)
    here = os.path.dirname(os.path.abspath(__file__))
    subprocess.check_call(['g++', '-std=c++17', '-w', '-I' + here + '/inc', '-I/usr/include/nlohmann', '-I' + os.getcwd() + '/cpp/src', d + '/m.cc', '-o', d + '/m', '-pthread'])
    r = subprocess.run([d + '/m'], timeout=60)
assert r.returncode == 0, r
'''


def core(body):
    return 'SRC = r"""#include <algorithm>\n#include <functional>\n#include <iostream>\n#include <limits>\n#include <list>\n#include <memory>\n#include <set>\n#include <string>\n#include "core.hh"\n#include "builders/domain/memory.hh"\nusing namespace skdecide;\n#define CHECK(x) if (!(x)) { std::cerr << #x << std::endl; return 1; }\nint main() {\n' + body + '\nreturn 0; }\n"""\n' + MAIN


I = {'inc': '/verif/vk/cpp/inc'}
bug('C37-merged-weights', 'C37', [('cpp/src/core.hh', 'r.first->second += i->second;', 'r.first->second = std::max(r.first->second, i->second);')], core('''
std::list<std::pair<int, double>> l = {{1, .25}, {2, .5}, {1, .25}};
DiscreteDistribution<int> d(l.begin(), l.end());
double one = 0;
for (const auto& v : d.get_values()) if (v.first == 1) one = v.second;
CHECK(one > .49 && one < .51)
'''), 'the same element given twice', 'the weights of an element given several times are not added up', files=I)
bug('C37-moved-front', 'C37', [('cpp/src/core.hh', '''    void push_front(T&& value) {
        std::deque<T>::push_front(value);
        if (this->size() > _maxlen) {
            std::deque<T>::pop_back();''', '''    void push_front(T&& value) {
        std::deque<T>::push_front(value);
        if (this->size() > _maxlen) {
            std::deque<T>::pop_front();''')], core('''
Memory<std::string> m(2), n(2);
std::string a = "a", b = "b", c = "c";
m.push_front(a); m.push_front(b); m.push_front(c);
CHECK(m.size() == 2 && m[0] == "c" && m[1] == "b")
n.push_front("a"); n.push_front("b"); n.push_front("c");
CHECK(n.size() == 2 && n[0] == "c" && n[1] == "b")
'''), 'a temporary pushed to the front of a full memory', 'the new element is dropped instead of the oldest one', files=I)
bug('C37-same-memory', 'C37', [('cpp/src/core.hh', '''(m)
               && _maxlen == m._maxlen;''', '''(m)
               && (_maxlen == m._maxlen || this->size() < std::min(_maxlen, m._maxlen));''')], core('''
Memory<int> a(3), b(4), c(3);
for (int i : {1, 2}) { a.push_back(i); b.push_back(i); c.push_back(i); }
CHECK(a == c)
CHECK(!(a == b))
'''), 'memories of different capacities with the same elements, none full', 'memories that will not behave alike compare equal', files=I)
