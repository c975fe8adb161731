// FilePath: decomposition, normalisation, environment references.
#include "vh.h"
#include "icl_core_config/AttributeTree.h"
#include <set>
using namespace vh;
using icl_core::config::FilePath;

struct H
{
  std::set<std::string> names;
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    const std::string& o = op.name;
    if (o == "new")
    {
      for (std::set<std::string>::iterator it = names.begin(); it != names.end(); ++it) { unsetenv(it->c_str()); }
      names.clear();
      setenv("PWD", "/", 1);
    }
    else if (o == "pwd")
    {
      setenv("PWD", op.bytes("v").c_str(), 1);
      j.bytes("v", op.bytes("v"));
    }
    else if (o == "env")
    {
      names.insert(op.bytes("k"));
      setenv(op.bytes("k").c_str(), op.bytes("v").c_str(), 1);
      j.bytes("k", op.bytes("k")).bytes("v", op.bytes("v"));
    }
    else if (o == "unset")
    {
      unsetenv(op.bytes("k").c_str());
      j.bytes("k", op.bytes("k"));
    }
    else
    {
      const std::string s = op.bytes("s");
      j.bytes("s", s);
      if (o == "file")
      {
        FilePath f(s), g(s.c_str());
        j.bytes("abs", f.absoluteName()).bytes("path", f.path()).bytes("name", f.name()).bytes("ext", f.extension());
        j.bytes("cur", f.currentDir()).b("rel", f.isRelativePath()).b("same", f.absoluteName() == g.absoluteName()).bytes("joined", g.absolutePath(s));
      }
      else if (o == "norm")
      {
        j.bytes("r", FilePath::normalizePath(s)).b("rel", FilePath::isRelativePath(s)).bytes("ex", FilePath::exchangeSeparators(s));
      }
      else if (o == "get") { j.bytes("r", FilePath::getEnvironment(s)); }
      else if (o == "repl") { j.bytes("r", FilePath::replaceEnvironment(s)); }
      else { fprintf(stderr, "script: %s?\n", o.c_str()); _exit(71); }
    }
    trace().emit(j);
  }
};

int main(int argc, char **argv)
{
  H h;
  return drive(argc, argv, h);
}
