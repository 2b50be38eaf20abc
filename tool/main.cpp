#include "monitors.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
static void emit(const str &mode, Program &P, Result &R, double dt)
{
   auto q = [](const str &s) { return "\"" + jsonEsc(s) + "\""; };
   outs() << "{\"mode\":" << q(mode) << ",\"units\":" << P.mods.size() << ",\"functions\":" << P.funcs.size() << ",\"seconds\":" << (int)(dt * 1000) << ",\n\"counts\":{";
   bool c = false;
   for (auto &kv : R.counts) { outs() << (c ? "," : "") << q(kv.first) << ":" << kv.second; c = true; }
   outs() << "},\n\"broken\":["; c = false;
   for (auto &b : R.broken) { outs() << (c ? "," : "") << q(b); c = true; }
   outs() << "],\n\"samples\":["; c = false;
   for (auto &b : R.samples) { outs() << (c ? "," : "") << q(b); c = true; }
   outs() << "],\n\"findings\":["; c = false;
   for (auto &f : R.findings) {
      outs() << (c ? ",\n" : "\n") << "{\"rule\":" << q(f.rule) << ",\"file\":" << q(f.file) << ",\"line\":" << f.line << ",\"function\":" << q(f.func) << ",\"key\":" << q(f.key) << ",\"message\":" << q(f.msg) << ",\"path\":" << q(f.path) << "}"; c = true;
   }
   outs() << "]}\n";
}
int main(int argc, char **argv)
{
   std::vector<str> files; str mode; 
   for (int i = 1; i < argc; i++) { str a = argv[i]; if (a == "--mode") mode = argv[++i]; else files.push_back(a); }
   std::map<str, void (*)(Program &, Result &)> modes = {{"page", runPage}, {"lock", runLock}, {"status", runStatus}, {"heap", runHeap}, {"memtable", runMemtable}, {"extent", runExtent}, {"close", runClose}, {"cache", runCache}};
   if (!modes.count(mode)) { errs() << "unknown mode\n"; return 2; }
   Program P;
   if (!P.load(files)) return 2;
   auto t0 = std::chrono::steady_clock::now();
   Result R; modes[mode](P, R);
   emit(mode, P, R, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
   return 0;
}
