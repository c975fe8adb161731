// AttributeTree: a forest of nodes, numbered in the order of their creation.
#include "vh.h"
#include "icl_core_config/AttributeTree.h"
#include <set>
using namespace vh;
using icl_core::config::AttributeTree;

static std::string opt(const char *s) { return s ? "[" + jbytes(s) + "]" : "[]"; }

struct H
{
  std::vector<AttributeTree *> node; // node[h-1], NULL once deleted
  std::map<AttributeTree *, int> number;
  std::set<AttributeTree *> roots;   // trees the harness has to delete in the end

  int num(AttributeTree *t) const
  {
    std::map<AttributeTree *, int>::const_iterator it = number.find(t);
    return !t ? 0 : it == number.end() ? -1 : it->second;
  }
  AttributeTree *at(long long h) const
  {
    if (h < 1 || h > (long long)node.size() || !node[h - 1]) { fprintf(stderr, "script: no node %lld\n", h); _exit(71); }
    return node[h - 1];
  }
  // New nodes get their numbers in the order of a walk which visits a node before its children.
  void discover(AttributeTree *t)
  {
    if (!number.count(t)) { node.push_back(t); number[t] = int(node.size()); }
    for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k)) { discover(k); }
  }
  void collect(AttributeTree *t, std::vector<AttributeTree *>& v)
  {
    v.push_back(t);
    for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k)) { collect(k, v); }
  }
  void discover()
  {
    std::vector<AttributeTree *> known;
    for (size_t i = 0; i < node.size(); ++i) { if (node[i] && !node[i]->parentTree()) { known.push_back(node[i]); } }
    for (size_t i = 0; i < known.size(); ++i) { discover(known[i]); }
  }
  std::string dump()
  {
    std::vector<std::string> r;
    for (size_t i = 0; i < node.size(); ++i)
    {
      AttributeTree *t = node[i];
      if (!t) { continue; }
      std::vector<long long> kids;
      for (AttributeTree *k = t->firstSubTree(); k && kids.size() < 1000; k = t->nextSubTree(k)) { kids.push_back(num(k)); }
      std::string s = "[";
      char b[64];
      snprintf(b, 64, "%zu,%d,[", i + 1, t->parent() == t->parentTree() ? num(t->parentTree()) : -1);
      s += b;
      for (size_t k = 0; k < kids.size(); ++k) { snprintf(b, 64, "%s%lld", k ? "," : "", kids[k]); s += b; }
      s += "]," + opt(t->getDescription()) + "," + opt(t->attribute()) + "," + (t->changed() ? "true" : "false") + "]";
      if (t->attribute() != t->getAttribute()) { s = "\"disagree\""; }
      r.push_back(s);
    }
    return jlist(r);
  }
  void clear()
  {
    for (size_t i = 0; i < node.size(); ++i) { if (node[i] && !node[i]->parentTree()) { forget(node[i]); } }
    node.clear();
    number.clear();
  }
  void forget(AttributeTree *t)
  {
    std::vector<AttributeTree *> v;
    collect(t, v);
    for (size_t i = 0; i < v.size(); ++i) { node[number[v[i]] - 1] = NULL; number.erase(v[i]); }
    delete t;
  }
  // Optional text: "-" is none.
  static bool none(const Op& op, const char *k) { return op.raw(k) == "-"; }
  struct Text
  {
    std::string s;
    bool no;
    Text(const Op& op, const char *k) : s(none(op, k) ? std::string() : op.bytes(k)), no(none(op, k)) {}
    const char *c() const { return no ? NULL : s.c_str(); }
  };
  static std::vector<std::string> path(const Op& op)
  {
    std::vector<std::string> v;
    std::string s = op.bytes("path"), t;
    std::stringstream ss(s);
    while (std::getline(ss, t, '.')) { v.push_back(t); }
    return v;
  }
  static std::string jpath(const std::vector<std::string>& v)
  {
    std::vector<std::string> r;
    for (size_t i = 0; i < v.size(); ++i) { r.push_back(jbytes(v[i])); }
    return jlist(r);
  }

  void operator () (const Op& op)
  {
    J j(op.name.c_str());
    const std::string& o = op.name;
    if (o == "new") { clear(); trace().emit(j); return; }
    AttributeTree *t = o == "make" ? NULL : at(op.i("h"));
    if (t) { j.i("h", op.i("h")); }
    if (o == "make" || o == "copy")
    {
      AttributeTree *p = op.i("p") ? at(op.i("p")) : NULL, *n;
      j.i("p", op.i("p"));
      if (o == "make") { Text d(op, "d"); j.raw("d", opt(d.c())); n = new AttributeTree(d.c(), p); }
      else if (!p && op.b("alt")) { n = new AttributeTree(*t); }
      else { n = new AttributeTree(*t, p); }
      discover(n);
      j.i("ret", num(n));
    }
    else if (o == "delete") { forget(t); }
    else if (o == "unlink") { t->unlink(); }
    else if (o == "unlinkSub") { t->unlinkSub(); }
    else if (o == "set")
    {
      Text a(op, "a");
      AttributeTree *r;
      std::string p = op.bytes("path");
      size_t dot = p.find('.');
      if (op.b("alt") && !p.empty())
      {
        std::string sub = dot == std::string::npos ? "" : p.substr(dot + 1);
        r = t->setAttribute(p.substr(0, dot).c_str(), dot == std::string::npos ? NULL : sub.c_str(), a.c());
      }
      else { r = t->setAttribute(p.empty() && op.b("alt") ? NULL : p.c_str(), a.c()); }
      discover();
      j.raw("path", jpath(path(op))).raw("a", opt(a.c())).i("ret", num(r));
    }
    else if (o == "setAttr") { Text a(op, "a"); t->setAttribute(a.c()); j.raw("a", opt(a.c())); }
    else if (o == "setDesc") { Text d(op, "d"); t->setDescription(d.c()); j.raw("d", opt(d.c())); }
    else if (o == "setComment") { Text a(op, "a"); t->setComment(a.c()); discover(); j.raw("a", opt(a.c())); }
    else if (o == "appendAttr" || o == "appendDesc")
    {
      Text a(op, "a"), s(op, "sep");
      bool d = o == "appendDesc";
      if (s.no && op.b("alt")) { d ? t->appendDescription(a.c()) : t->appendAttribute(a.c()); }
      else { d ? t->appendDescription(a.c(), s.c()) : t->appendAttribute(a.c(), s.c()); }
      j.raw("a", opt(a.c())).bytes("sep", s.s);
    }
    else if (o == "subTree") { Text d(op, "d"); AttributeTree *r = t->subTree(d.c()); discover(); j.raw("d", opt(d.c())).i("ret", num(r)); }
    else if (o == "getSub") { Text d(op, "d"); j.raw("d", opt(d.c())).i("ret", num(t->getSubTree(d.c()))); }
    else if (o == "get")
    {
      Text a(op, "a");
      std::string p = op.bytes("path");
      AttributeTree *n = t;
      const char *r = op.b("alt") ? t->getAttribute(p.c_str(), a.c()) : t->getAttribute(p.c_str(), a.c(), &n);
      if (op.b("alt")) { t->getAttribute(p.c_str(), NULL, &n); }
      j.raw("path", jpath(path(op))).raw("a", opt(a.c())).raw("ret", opt(r)).i("node", num(n));
    }
    else if (o == "getOr")
    {
      Text a(op, "a");
      const char *r = t->getOrSetDefault(op.bytes("path").c_str(), a.c());
      discover();
      j.raw("path", jpath(path(op))).raw("a", opt(a.c())).raw("ret", opt(r));
    }
    else if (o == "isAttr") { Text a(op, "a"); j.raw("path", jpath(path(op))).raw("a", opt(a.c())).b("ret", t->isAttribute(op.bytes("path").c_str(), a.c())); }
    else if (o == "search") { Text d(op, "d"), a(op, "a"); j.raw("d", opt(d.c())).raw("a", opt(a.c())).i("ret", num(t->search(d.c(), a.c()))); }
    else if (o == "add") { j.i("t", op.i("t")).i("ret", num(t->addSubTree(at(op.i("t"))))); }
    else if (o == "addNext") { j.i("t", op.i("t")).i("ret", num(t->addNextTree(at(op.i("t"))))); }
    else if (o == "addNew") { AttributeTree *r = t->addNewSubTree(); discover(); j.i("ret", num(r)); }
    else if (o == "fresh") { Text d(op, "d"); char *r = t->newSubNodeDescription(d.c()); j.raw("d", opt(d.c())).bytes("ret", r); free(r); }
    else if (o == "revert") { t->revertOrder(); }
    else if (o == "unmark") { t->unmarkChanges(); }
    else if (o == "ask")
    {
      j.i("count", t->contains()).i("root", num(t->root())).bytes("comment", t->comment()).b("hasComment", t->hasComment())
       .i("cnode", num(t->commentAttributeTree())).b("hasMulti", t->hasMultilineComment()).b("isComment", t->isComment())
       .b("isMulti", t->isMultilineComment());
      const char *p = t->getFilePath(), *n = t->fileName();
      j.bytes("fpath", p).bytes("fname", n);
    }
    else { fprintf(stderr, "script: %s?\n", o.c_str()); _exit(71); }
    trace().emit(j.raw("f", dump()));
  }
};
int main(int argc, char **argv) { H h; return drive(argc, argv, h); }
