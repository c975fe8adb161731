// AttributeTree: saving and loading in a scratch directory.
#include "vh.h"
#include "icl_core_config/AttributeTree.h"
#include <sys/stat.h>
using namespace vh;
using icl_core::config::AttributeTree;

static std::string opt(const char *s) { return s ? "[" + jbytes(s) + "]" : "[]"; }
static std::string dir; // ends with '/'

static std::string dump(AttributeTree *t)
{
  std::vector<std::string> k;
  for (AttributeTree *c = t->firstSubTree(); c; c = t->nextSubTree(c)) { k.push_back(dump(c)); }
  J j;
  return j.raw("d", opt(t->getDescription())).raw("a", opt(t->attribute())).raw("k", jlist(k)).str();
}

static std::string lines(const std::string& file)
{
  std::ifstream in(file.c_str());
  std::vector<std::string> r;
  std::string s;
  while (std::getline(in, s)) { r.push_back(jbytes(s)); }
  return jlist(r);
}

struct H
{
  AttributeTree *t;
  std::vector<std::pair<std::string, std::string> > files; // name, lines as JSON
  H() : t(NULL) {}

  // A text "-" is none.
  struct Text
  {
    std::string s;
    bool no;
    Text(const Op& op, const char *k) : s(op.raw(k) == "-" ? std::string() : op.bytes(k)), no(op.raw(k) == "-") {}
    const char *c() const { return no ? NULL : s.c_str(); }
  };
  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    const std::string& o = op.name;
    if (o == "new")
    {
      delete t;
      t = new AttributeTree;
      for (size_t i = 0; i < files.size(); ++i) { unlink((dir + files[i].first).c_str()); }
      files.clear();
      trace().emit(j);
    }
    else if (o == "root") // a tree given node by node, children in their order: root, node*, tree
    {
      Text d(op, "d"), a(op, "a");
      delete t;
      t = new AttributeTree(d.c());
      t->setAttribute(a.c());
    }
    else if (o == "node") // the next child of the node which is reached from the root by the last children
    {
      AttributeTree *p = t, *n, *last = NULL;
      for (long long i = op.i("depth"); i > 0; --i)
      {
        n = NULL;
        for (AttributeTree *c = p->firstSubTree(); c; c = p->nextSubTree(c)) { n = c; }
        p = n;
      }
      for (AttributeTree *c = p->firstSubTree(); c; c = p->nextSubTree(c)) { last = c; }
      Text d(op, "d"), a(op, "a");
      AttributeTree *x = new AttributeTree(d.c(), last ? NULL : p);
      if (last)
      {
        // A name may be given twice.
        x->setDescription(NULL);
        last->addNextTree(x);
        x->setDescription(d.c());
      }
      x->setAttribute(a.c());
    }
    else if (o == "tree") { t->unmarkChanges(); trace().emit(j.raw("t", dump(t))); }
    else if (o == "save" || o == "reload")
    {
      std::string f = dir + "saved";
      int depth = int(op.i("depth"));
      bool unmark = op.b("unmark");
      int r = depth == 3 && unmark ? t->save(f.c_str()) : t->save(f.c_str(), depth, unmark);
      j.i("depth", depth);
      if (o == "save") { j.b("ok", r == AttributeTree::eOK).b("unmark", unmark).raw("lines", lines(f)).b("changed", t->changed()); }
      else
      {
        AttributeTree u;
        int l = u.load(f.c_str(), true, false, true, true);
        j.bytes("dir", dir).bytes("n", "saved").b("ok", r == AttributeTree::eOK && l == AttributeTree::eOK).b("changed", u.changed()).raw("t", dump(&u));
      }
      unlink(f.c_str());
      trace().emit(j);
    }
    else if (o == "file") // file n=.. : its lines follow
    {
      files.push_back(std::make_pair(op.bytes("n"), std::string()));
      std::ofstream((dir + files.back().first).c_str());
    }
    else if (o == "line" || o == "part") // part: without an end of line
    {
      std::ofstream out((dir + files.back().first).c_str(), std::ios::app);
      std::string s = op.bytes("s");
      for (long long i = 0; op.has("rep") && i < op.i("rep"); ++i) { s += char('a' + i % 26); }
      out << s;
      if (o == "line") { out << (op.has("cr") ? "\r\n" : "\n"); }
    }
    else if (o == "load")
    {
      bool un = op.b("unmark"), pr = op.b("proc"), co = op.b("comm"), ke = op.b("keep");
      std::vector<std::string> fs;
      for (size_t i = 0; i < files.size(); ++i) { J f; fs.push_back(f.bytes("n", files[i].first).raw("l", lines(dir + files[i].first)).str()); }
      std::string n = op.bytes("n"), f = dir + n;
      int r = un && pr && !co && !ke && op.b("alt") ? t->load(f.c_str()) : t->load(f.c_str(), un, pr, co, ke);
      j.bytes("n", n).bytes("dir", dir).raw("files", jlist(fs)).b("unmark", un).b("proc", pr).b("comm", co).b("keep", ke)
       .b("ok", r == AttributeTree::eOK).b("changed", t->changed()).raw("t", dump(t));
      trace().emit(j);
    }
    else { fprintf(stderr, "script: %s?\n", o.c_str()); _exit(71); }
  }
};

int main(int argc, char **argv)
{
  if (argc < 3) { return 71; }
  char d[] = "/tmp/vfXXXXXX";
  if (!mkdtemp(d)) { return 71; }
  dir = std::string(d) + "/";
  mkdir((dir + "sub").c_str(), 0700);
  setenv("VFDIR", d, 1);
  H h;
  int r = drive(argc, argv, h);
  unlink((dir + "saved").c_str());
  for (size_t i = 0; i < h.files.size(); ++i) { unlink((dir + h.files[i].first).c_str()); }
  rmdir((dir + "sub").c_str());
  rmdir(d);
  return r;
}
