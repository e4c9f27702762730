// Cases: (directory, filter) listings of scratch directories holding regular files, directories, symbolic
// links to both, dangling links and fifos under plain and unusual names, and of paths that are no readable
// directory; compared with an independent readdir/stat walk. Directory streams are counted. Also the kind
// predicates on every path. Non-trivial when distinct.
#include "lpv.h"
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <lamppost/Filesystem.h>
static bool gOn = false; static long gOpen = 0, gClosed = 0; static std::multiset<void*> gLive;
extern "C" {
  DIR* opendir(const char* p) { static auto f = (DIR*(*)(const char*))dlsym(RTLD_NEXT, "opendir"); DIR* d = f(p); if(gOn && d) { ++gOpen; gLive.insert(d); } return d; }
  int closedir(DIR* d) { static auto f = (int(*)(DIR*))dlsym(RTLD_NEXT, "closedir"); if(gOn) { if(!gLive.count(d)) lpv::fail("closedir on a stream that is not open"); gLive.erase(d); ++gClosed; } return f(d); }
}
static int kind(const std::string& p) { struct stat s; if(stat(p.c_str(), &s)) return 0; return S_ISREG(s.st_mode) ? 1 : S_ISDIR(s.st_mode) ? 2 : 3; }

static void list(const std::string& d, int filter) {
  std::list<std::string> want;
  if(DIR* x = opendir(d.c_str())) {
    while(struct dirent* e = readdir(x)) { int k = kind(d + "/" + e->d_name); if((k == 1 && (filter & 1)) || (k == 2 && (filter & 2))) want.push_back(e->d_name); }
    closedir(x);
  }
  auto show = [](const std::list<std::string>& l) { std::string r = "["; for(auto& s : l) r += lpv::show(s) + ","; return r.substr(0, 1500) + "]"; };
  std::string ctx = "GetDirectoryContents(" + lpv::show(d) + ", " + std::to_string(filter) + ")";
  lpv::count(ctx + show(want));
  gOn = true; gOpen = gClosed = 0; gLive.clear();
  std::list<std::string> got;
  try { got = lp::Filesystem::GetDirectoryContents(d, (lp::FilesystemObjectType)filter); } catch(std::exception& e) { lpv::fail(ctx + " throws " + e.what()); }
  gOn = false;
  lpv::check(got == want, [&] { return ctx + " = " + show(got) + " instead of " + show(want); });
  lpv::check(gLive.empty() && gOpen == gClosed, [&] { return ctx + ": a directory stream is left open"; });
}
static void preds(const std::string& p) {
  int k = kind(p);
  lpv::check(lp::Filesystem::IsFile(p) == (k == 1), [&] { return "IsFile(" + lpv::show(p) + ")"; });
  lpv::check(lp::Filesystem::IsDirectory(p) == (k == 2), [&] { return "IsDirectory(" + lpv::show(p) + ")"; });
  lpv::check(lp::Filesystem::PathExists(p) == (k != 0), [&] { return "PathExists(" + lpv::show(p) + ")"; });
}

int main(int argc, char** argv) {
  lpv::init(argc, argv);
  for(int t = 0; t < lpv::scale(40); ++t) {
    std::string d = "d" + std::to_string(t);
    mkdir(d.c_str(), 0755);
    std::vector<std::string> names;
    int n = t == 0 ? 0 : t == 1 ? 300 : lpv::rnd(12);
    for(int i = 0; i < n; ++i) {
      std::string nm = lpv::rnd(3) ? std::string(1, 'a' + lpv::rnd(26)) + std::to_string(i) : lpv::str("ab.- ");
      std::string c; for(char x : nm) if(x && x != '/') c += x;
      if(c.empty() || c == "." || c == ".." || c.size() > 200) continue;
      if(lpv::rnd(5) == 0) c = "." + c;
      if(lpv::rnd(5) == 0) c += ".so";
      std::string p = d + "/" + c;
      switch(lpv::rnd(7)) {
        case 0: case 1: { int f = open(p.c_str(), O_CREAT | O_WRONLY, lpv::rnd(2) ? 0644 : 0); if(f >= 0) close(f); break; }
        case 2: case 3: mkdir(p.c_str(), 0755); break;
        case 4: mkfifo(p.c_str(), 0644); break;
        case 5: symlink(lpv::rnd(2) ? "/" : "/etc/passwd", p.c_str()); break;
        default: symlink("nowhere", p.c_str());
      }
      names.push_back(p);
    }
    for(int f : {1, 2, 3}) { list(d, f); list(d + "/", f); }
    for(auto& p : names) { preds(p); if(lpv::rnd(4) == 0) list(p, 1 + lpv::rnd(3)); }
    preds(d); preds(d + "/nothing");
  }
  for(int f : {1, 2, 3}) { list("absent", f); list("", f); }
  preds(""); preds("/dev/null");
  return lpv::done();
}
