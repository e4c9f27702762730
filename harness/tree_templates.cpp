// Instantiates the member templates of lp::messages::Datagram / RawDatagram for the value types a
// payload can hold: their bodies come from /repo's headers, this file only names the instances.
#include <lamppost/messages/Datagram.h>

namespace lpv {
  typedef lp::messages::Datagram DG;
  typedef lp::messages::RawDatagram RAW;
  typedef std::shared_ptr<RAW> RP;

  void assignString(DG& d, std::string v) { d = v; }
  void assignInt(DG& d, int v) { d = v; }
  void assignDouble(DG& d, double v) { d = v; }
  void assignBool(DG& d, bool v) { d = v; }
  DG makeString(std::string v) { return DG(v); }
  DG makeInt(int v) { return DG(v); }
  DG makeDouble(double v) { return DG(v); }
  DG makeBool(bool v) { return DG(v); }
  RP rawString(std::string v) { return std::make_shared<RAW>(v); }
  RP rawInt(int v) { return std::make_shared<RAW>(v); }
  RP rawDouble(double v) { return std::make_shared<RAW>(v); }
  RP rawBool(bool v) { return std::make_shared<RAW>(v); }
  std::string getString(DG& d) { return d.Get<std::string>(); }
  int getInt(DG& d) { return d.Get<int>(); }
  double getDouble(DG& d) { return d.Get<double>(); }
  bool getBool(DG& d) { return d.Get<bool>(); }
  std::string pathString(DG& d, std::string path, std::string def) { return d.Get<std::string>(path, def); }
  int pathInt(DG& d, std::string path, int def) { return d.Get<int>(path, def); }
  double pathDouble(DG& d, std::string path, double def) { return d.Get<double>(path, def); }
  bool pathBool(DG& d, std::string path, bool def) { return d.Get<bool>(path, def); }
  void addNode(DG& d, RP x) { d.Add(x); }
  void removeKey(DG& d, std::string k) { d.Remove(k); }
  void removeIndex(DG& d, unsigned int i) { d.Remove(i); }
}
