// trainNetwork, the command-line trainer, run as a whole on scripts: what its commands do to the parameters and to later commands.
#include "hx.h"
#include <private/ConfigParsing.h>
#include <sstream>
#include <fstream>
int main_train(int, char**) __asm__("tool_trainNetwork");
typedef std::vector<std::string> Args;
static int run(Args a) { a.insert(a.begin(), "tool"); std::vector<char*> v; for (std::string& s : a) v.push_back(&s[0]); v.push_back(nullptr); return main_train((int)a.size(), v.data()); }
static void put(const std::string& n, const std::string& s) { sx_file_put(n.c_str(), s.data(), s.size()); }
static std::string get(const std::string& n) { long k = sx_file_size(n.c_str()); sx_assert(k >= 0, "the file is written"); std::string s(k, ' '); if (k) sx_file_get(n.c_str(), &s[0], k); return s; }
static bool exists(const std::string& n) { return sx_file_size(n.c_str()) >= 0; }
static void u64(std::string& s, uint64_t v) { FOR(i, 8) s += (char)(v >> (8 * i)); }
static int C, patch; static bool sym;
static void sample(std::string& f, int seed) { int W = 2, H = 1; u64(f, 1); u64(f, W); u64(f, H); u64(f, 2); FOR(i, W * H * 2) { float v = ((seed * 5 + i * 3) % 7) / 8.0f; f.append((const char*)&v, 4); } u64(f, 1); u64(f, W); u64(f, H); u64(f, C); FOR(i, W * H * C) { float v = sym && i == 0 ? sx_real_f("label", 0, 4, 2) : ((i + seed) % 3) / 2.0f; f.append((const char*)&v, 4); } }
static std::string netconf();
static void setup() { C = sx_param("C", 2); patch = sx_param("patch", 0); sym = sx_param("sym", 0); sx_random_mode = 1; std::string t = "classes=" + std::to_string(C) + "\n"; FOR(c, C) t += "class" + std::to_string(c) + "\n"; t += "colors\n"; FOR(c, C) t += "0xff000" + std::to_string(c) + "\n"; put("sx.set", t + "training=sx.tr\ntesting=sx.te\n"); std::string a, b; sample(a, 1); sample(a, 2); sample(b, 3); put("sx.tr", a); put("sx.te", b);
  put("sx.net", netconf()); sx_dir_put("csv"); }
static std::string netconf() { return std::string(sym ? "" : "?fullyconnected neurons=2\n?relu\n") + "?fullyconnected neurons=(o)\n?output\nmethod=" + (patch ? "patch" : "fcn") + "\nlr=0.5\nmomentum=0.5\nl1=0\nl2=0.25\ngamma=0.5\nexponent=1\niterations=" + (sym ? "1" : "2") + "\nsbatchsize=1\npbatchsize=" + (patch ? "2" : "1") + "\n"; }
static Args files() { return {"sx.set", "sx.net", "sx.script"}; }
static void script(const std::string& s) { if (sx_param("stdin", 0)) { sx_stdin((s + "\nquit\nreset\nsave file=sx.b\nq\n").c_str()); sx_assert(run({"sx.set", "sx.net"}) == 0, "the trainer succeeds"); return; } put("sx.script", s); sx_assert(run(files()) == 0, "the trainer succeeds"); }
static void same(const std::string& a, const std::string& b, const char* msg) { sx_assert(a.size() == b.size(), msg); for (std::size_t i = 0; i + 4 <= a.size(); i += 4) { float x, y; memcpy(&x, &a[i], 4); memcpy(&y, &b[i], 4); sx_assert_same(x, y, msg); } }
static const char* const NOOP[] = {"test", "test view=0", "help", "save file=sx.tmp", "save file=sx.tmp\nload file=sx.tmp", "graph file=sx.dot", "graph file=sx.dot test", "set experiment name=exp", "set experiment", "wstat node=none", "dstat node=none", "nonsense", "", "save", "load", "load file=sx.nothing", "train epochs=0", "graph"};
static void harmless() { const char* T = "train\n"; script(std::string(T) + (sym ? "" : T) + "save file=sx.a"); std::string a = get("sx.a"); int n = sx_param("N", 1); std::string x; FOR(i, n) { int k = sx_choose("command", 0, sizeof NOOP / sizeof *NOOP - 1); x += NOOP[k]; x += "\n"; } bool quit = sx_choose("quit", 0, 1); if (quit && sym) return; script((sym ? x + T : x + T + x + T + x) + "save file=sx.b" + (quit ? "\nq\ntrain\nsave file=sx.b\n" : "")); same(get("sx.b"), a, "commands that only look, store or restore do not change what is trained"); sx_reach("harmless"); }
// the same with the library: what each command stands for
struct Lib { ConfigurableFactory* f; Dataset* d; NetGraph g; Trainer* t; std::ifstream net; Lib() : net("sx.net", std::ios::in) { std::ifstream set("sx.set", std::ios::in); f = new ConfigurableFactory(net, 8347734, true); f->InitOptimalSettings(); d = patch ? (Dataset*)TensorStreamPatchDataset::CreateFromConfiguration(set, false, LOAD_TRAINING_ONLY, f->patchsizex(), f->patchsizey()) : TensorStreamDataset::CreateFromConfiguration(set, false, LOAD_BOTH); DatasetInputLayer* l = new DatasetInputLayer(*d, patch ? 2 : 1, patch ? 1.0 : 0.5, 983923); NetGraphNode* n = new NetGraphNode(l); n->is_input = true; g.AddNode(n); sx_assert(f->AddLayers(g, NetGraphConnection(n), C, true), "the net is complete"); g.Initialize(); g.InitializeWeights(); TrainerSettings s = f->optimal_settings(); s.epoch_training_ratio = 1; s.testing_ratio = 1; t = new Trainer(g, s); }
  std::string params() { std::ostringstream o; g.SerializeParameters(o); return o.str(); } };
// (after a train command the epoch of the testing trainer is set, which is the same trainer unless training is by patches: it forgets its momentum)
static void train(Lib& L, int n) { L.t->Train(n, false); if (!patch) L.t->Reset(); }
static void commands() { int n = sx_param("N", 2); std::string x; Args log; System::stat_aggregator = new StatAggregator(); Lib L; std::string at[4], kept; int saved = 0; int ends = sym ? 1 : sx_choose("ending", 0, 1);
  FOR(i, n) { int k = i == 0 && sx_param("first", -1) >= 0 ? sx_param("first", 0) : sx_choose("command", sym ? 2 : 0, 5); if (k == 0) { x += "train\n"; train(L, 1); } else if (k == 1) { x += "train epochs=2 no_snapshots=1\n"; train(L, 2); } else if (k == 2) { int e = sx_choose("epoch", 0, 2); x += "set epoch=" + std::to_string(e) + "\n"; L.t->SetEpoch(e); L.t->Reset(); } else if (k == 3) { x += "reset\n"; L.g.InitializeWeights(); L.t->Reset(); } else if (k == 4) { x += "save file=sx.k\n"; kept = L.params(); } else { int last = sx_choose("last", 0, 2); x += "load file=sx.k" + (last ? " last_layer=" + std::to_string(last) : std::string()) + "\n"; if (!kept.empty()) { std::istringstream in(kept); L.g.DeserializeParameters(in, last); } } }
  x += ends ? "train\n" : ""; if (ends) train(L, 1); std::string want = L.params(); script(x + "save file=sx.b"); same(get("sx.b"), want, "parameters after the commands"); sx_reach("commands"); (void)at; (void)saved; (void)log; }
// testing reports what the current parameters deserve, however they came about
static std::vector<std::string> cells(const std::string& t, int row) { std::vector<std::string> r(1); int n = 0; for (char c : t) { if (c == '\n') { n++; continue; } if (n != row) continue; if (c == ',') r.push_back(""); else r.back() += c; } return r; }
static void report() { static const char* const BEFORE[] = {"", "test\ntrain\n", "save file=sx.s\ntrain\nload file=sx.s\n", "test\nreset\n", "train epochs=2\nset epoch=1\n"}; static const char* const BETWEEN[] = {"", "train\n", "reset\n", "test\ntest\n", "reset\nload file=sx.p\ntrain no_snapshots=1\n"}; int x = sx_choose("before", 0, 4), y = sx_choose("between", 0, 4);
  script(std::string("train\n") + BEFORE[x] + "save file=sx.p\nset experiment name=one\ntest\n" + BETWEEN[y] + "load file=sx.p\nset experiment name=two\ntest\nsave file=sx.q\n"); same(get("sx.q"), get("sx.p"), "loading restores what was saved"); std::string a = get("csv/one.csv"), b = get("csv/two.csv"); std::vector<std::string> h = cells(a, 0), v = cells(a, 1), w = cells(b, 1); sx_assert(v.size() == h.size() && w.size() == h.size(), "a test is recorded"); int loss = -1; FOR(i, h.size()) { if (h[i] == "AverageAggregateLoss") loss = i; if (h[i] == "Epoch" || h[i] == "SecondsElapsed" || h[i].find("hroughput") != std::string::npos || h[i].find("FrameRate") != std::string::npos) continue; sx_assert(v[i] == w[i], "a test reports the same for the same parameters, whatever happened before"); }
  sx_assert(loss >= 0, "the loss is reported"); double got = atof(v[loss].c_str()); bool was = patch; patch = 0; put("sx.net", netconf()); Lib L; patch = was; std::ifstream par("sx.p", std::ios::in | std::ios::binary); L.g.DeserializeParameters(par); double sum = 0; L.g.SetIsTesting(true); for (NetGraphNode* n : L.g.GetTrainingNodes()) dynamic_cast<TrainingLayer*>(n->layer)->SetTestingMode(true); L.g.FeedForward(); for (NetGraphNode* n : L.g.GetLossNodes()) sum += dynamic_cast<LossFunctionLayer*>(n->layer)->CalculateLossFunction(); double want = sum / 2 / (64 * 64); sx_assert((got > 0) & (got >= want * 0.999) & (got <= want * 1.001), "the reported loss is that of the current parameters on the testing set"); sx_reach("report"); }
static void usage() { int n = sx_choose("arguments", 0, 1), v = sx_choose("v", 0, 1); Args a; if (v) a.push_back("-v"); FOR(i, n) a.push_back("sx.set"); sx_assert(run(a) != 0, "missing arguments are reported"); sx_reach("usage"); }
// the gradient check of a whole net from files: completes for both training methods
static void check() { bool v = sx_choose("v", 0, 1); Args a; if (v) a.push_back("-v"); a.push_back("sx.set"); a.push_back("sx.net"); a.push_back("gradient_check"); sx_assert(run(a) == 0, "the gradient check completes"); sx_reach("check"); }
extern "C" int sx_main() { hx_init(); setup(); switch (sx_param("op", 0)) { case 0: harmless(); break; case 1: commands(); break; case 2: report(); break; case 3: usage(); break; case 4: check(); break; } return 0; }
