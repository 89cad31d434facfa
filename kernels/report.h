#ifndef VERIF_REPORT_H_
#define VERIF_REPORT_H_
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace verif {
// What the monitors saw. Printed as tab-separated lines for check.py.
struct Report {
  uint64_t cur = 0;
  int viols = 0;
  std::map<std::string, long> stat;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::set<std::string> keys;
  void Viol(const std::string& key, const std::string& detail) {
    ++viols;
    if (keys.size() > 12 && !keys.count(key)) return;
    if (!keys.insert(key).second) return;
    std::string d = detail;
    for (auto& ch : d)
      if (ch == '\n' || ch == '\t') ch = ' ';
    printf("VIOL\t%s\t%llu\t%s\n", key.c_str(), (unsigned long long)cur, d.c_str());
    fflush(stdout);
  }
  void Count(const std::string& k, long n = 1) { stat[k] += n; }
  void Sig(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
    if (sigs.size() < 60000) sigs.insert(h);
  }
  void Sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s);
  }
  void Finish() {
    for (auto& kv : stat) printf("STAT\t%s\t%ld\n", kv.first.c_str(), kv.second);
    for (auto& s : samples) printf("SAMPLE\t%s\n", s.c_str());
    printf("SIGS");
    for (auto h : sigs) printf("\t%llx", (unsigned long long)h);
    printf("\nDONE\t%d\n", viols);
    fflush(stdout);
  }
};
}  // namespace verif
#endif
