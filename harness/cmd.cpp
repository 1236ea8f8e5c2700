// Parses command lines with the repository's option parser and logs the result.
//   cmd <in> <out>
// in: "T" short0 long0 short1 long1 ... starts a table (the first pair is the
// built-in help option), "A" n arg... is one command line; words are hex encoded.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include "vdtdiag_simpleCmd.h"
static std::string unhex(const std::string &h) { std::string s; for (size_t i = 1; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return s; }
static FILE *out;
static void chars(const std::string &s) { fputc('[', out); for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"' || s[i] == '\\') exit(3); fprintf(out, "%s\"%c\"", i ? "," : "", s[i]); } fputc(']', out); }
int main(int argc, char **argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]); out = fopen(argv[2], "w"); if (!out) return 3;
  std::cout.rdbuf(0);
  std::string line; std::vector<std::string> opts; bool first = true, open = false;
  while (std::getline(in, line)) {
    std::istringstream ls(line); std::string k, w; ls >> k;
    std::vector<std::string> ws; while (ls >> w) ws.push_back(unhex(w));
    if (k == "T") {
      if (open) fprintf(out, "]}\n");
      opts = ws; fprintf(out, "{\"opts\":[");
      for (size_t i = 0; i < opts.size(); i += 2) { fprintf(out, "%s{\"s\":", i ? "," : ""); chars(opts[i]); fprintf(out, ",\"l\":"); chars(opts[i + 1]); fputc('}', out); }
      fprintf(out, "],\"parses\":["); open = true; first = true; continue;
    }
    CmdOptions c;
    for (size_t i = 2; i < opts.size(); i += 2) c.addOption(opts[i], opts[i + 1], "help text");
    std::vector<char *> av; std::string prog = "prog"; av.push_back(&prog[0]); for (auto &a : ws) av.push_back(&a[0]); av.push_back(0);
    std::vector<std::string> keep = ws;
    int ok = c.parseCmd((int)ws.size() + 1, av.data());
    fprintf(out, "%s{\"args\":[", first ? "" : ","); first = false;
    for (size_t i = 0; i < keep.size(); ++i) { if (i) fputc(',', out); chars(keep[i]); }
    fprintf(out, "],\"ok\":%d,\"set\":[", ok ? 1 : 0);
    for (size_t i = 0; i < opts.size(); i += 2) fprintf(out, "%s%d", i ? "," : "", c.isSet(opts[i]) ? 1 : 0);
    fprintf(out, "],\"val\":[");
    for (size_t i = 0; i < opts.size(); i += 2) { if (i) fputc(',', out); chars(c.getArgument(opts[i])); }
    fprintf(out, "],\"uset\":%d,\"uval\":", c.isSet("-zz") ? 1 : 0); chars(c.getArgument("-zz")); fprintf(out, "}");
  }
  if (open) fprintf(out, "]}\n");
  fclose(out); return 0;
}
