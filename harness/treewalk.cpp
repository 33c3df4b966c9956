// C28: a tree walker shows the nodes its flags and filter accept, in the shape the accepted nodes have.
#include <iostream>
#include <vector>
#include "symx.h"
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
using namespace Arabica;
typedef std::string S;
typedef DOM::Node<S> Node;
typedef DOM::Traversal::NodeFilter<S> Filter;
typedef DOM::Traversal::TreeWalker<S> Walker;
static const char *moveNames[] = {"parentNode", "firstChild", "lastChild", "nextSibling", "previousSibling", "nextNode", "previousNode"};
struct Slot { Node node; unsigned verdict; }; // verdict 0 accept 1 skip 2 reject, symbolic
static std::vector<Slot> slots;
static unsigned shown; // bits of whatToShow over element, text, comment, symbolic; the rest are hidden or shown together
static bool others, filtered;
static int failAt = -1;
struct Trouble {};
static int find(const Node &n) { for (unsigned i = 0; i < slots.size(); ++i) if (slots[i].node == n) return i; return -1; }
struct Verdicts : public Filter {
  mutable int calls;
  mutable bool hidden; // asked about a node which is not to be shown
  Verdicts() : calls(0), hidden(false) { }
  ~Verdicts() { }
  Result acceptNode(const Node &n) const;
};
static bool show(const Node &n) {
  switch (n.getNodeType()) {
    case Node::ELEMENT_NODE: return (shown & 1) != 0;
    case Node::TEXT_NODE: return (shown & 2) != 0;
    case Node::COMMENT_NODE: return (shown & 4) != 0;
    default: return others;
  }
}
Filter::Result Verdicts::acceptNode(const Node &n) const {
  if (calls++ == failAt) throw Trouble();
  if (!show(n)) hidden = true;
  int i = find(n);
  if (i < 0) return FILTER_ACCEPT;
  switch (slots[i].verdict) { case 0: return FILTER_ACCEPT; case 1: return FILTER_SKIP; default: return FILTER_REJECT; }
}
// ---- the view
static int verdict(const Node &n) { // 0 accept 1 skip 2 reject
  if (!show(n)) return 1;
  int i = find(n);
  if (!filtered || i < 0) return 0;
  return slots[i].verdict == 0 ? 0 : slots[i].verdict == 1 ? 1 : 2;
}
static void flatten(const Node &n, std::vector<Node> &to, bool deep) {
  for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) {
    int v = verdict(c);
    if (v == 2) continue;
    if (v == 0) to.push_back(c);
    if (v == 1 || deep) flatten(c, to, deep);
  }
}
static bool within(Node n, const Node &of) { for (; n != 0; n = n.getParentNode()) if (n == of) return true; return false; }
static void path(Node n, std::vector<unsigned> &to) {
  if (n.getParentNode() != 0) {
    path(n.getParentNode(), to);
    unsigned i = 0;
    for (Node c = n.getPreviousSibling(); c != 0; c = c.getPreviousSibling()) ++i;
    to.push_back(i);
  }
}
static bool before(const Node &a, const Node &b) { std::vector<unsigned> x, y; path(a, x); path(b, y); return x < y; }
static Node expected(int move, const Node &n, const Node &root) {
  if (move == 1 || move == 2) {
    std::vector<Node> kids;
    flatten(n, kids, false);
    return kids.empty() ? Node() : move == 1 ? kids.front() : kids.back();
  }
  if (move == 5) {
    std::vector<Node> all;
    flatten(root, all, true);
    for (unsigned i = 0; i < all.size(); ++i) if (before(n, all[i])) return all[i];
    return Node();
  }
  if (n == root) return Node();
  if (move == 0) {
    for (Node p = n; p != root;) { p = p.getParentNode(); if (verdict(p) == 0) return p; }
    return Node();
  }
  if (move == 6) {
    std::vector<Node> all;
    flatten(root, all, true);
    for (unsigned i = all.size(); i > 0; --i) if (before(all[i - 1], n)) return all[i - 1];
    return verdict(root) == 0 ? root : Node();
  }
  Node parent = n.getParentNode();
  while (parent != root && verdict(parent) != 0) parent = parent.getParentNode();
  std::vector<Node> kids;
  flatten(parent, kids, false);
  if (move == 3) { for (unsigned i = 0; i < kids.size(); ++i) if (before(n, kids[i]) && !within(kids[i], n)) return kids[i]; }
  else for (unsigned i = kids.size(); i > 0; --i) if (before(kids[i - 1], n)) return kids[i - 1];
  return Node();
}
static bool rejected(Node n, const Node &root) { for (; n != root; n = n.getParentNode()) if (verdict(n) == 2) return true; return false; }
static Node go(Walker &w, int move) {
  switch (move) {
    case 0: return w.parentNode();
    case 1: return w.firstChild();
    case 2: return w.lastChild();
    case 3: return w.nextSibling();
    case 4: return w.previousSibling();
    case 5: return w.nextNode();
    default: return w.previousNode();
  }
}
// ---- trees
static DOM::Document<S> doc;
static Node node(int kind) {
  switch (kind) { case 0: return doc.createElement("e"); case 1: return doc.createTextNode("t"); case 2: return doc.createComment("c"); default: return doc.createProcessingInstruction("p", "d"); }
}
static void put(Node parent, Node n) { parent.appendChild(n); Slot s = {n, symx_choose(3)}; slots.push_back(s); }
static void grow(int count, int kinds, bool loose = false) {
  slots.clear();
  doc = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "", 0);
  Node top = doc;
  if (loose) top = doc.createDocumentFragment();
  Slot s = {top, 0};
  slots.push_back(s);
  Node r = doc.createElement("r"), last = r;
  put(top, r);
  for (int i = 0; i < count; ++i) {
    std::vector<Node> homes; // the last element and what it's in
    for (Node h = last; h != top && h != 0; h = h.getParentNode()) homes.push_back(h);
    Node home = homes[symx_pick(homes.size())], n = node(symx_pick(kinds));
    put(home, n);
    last = n.getNodeType() == Node::ELEMENT_NODE ? n : home;
  }
}
static Walker walker(Verdicts &filter, const Node &root) {
  using namespace DOM::Traversal;
  unsigned long what = others ? SHOW_ALL & ~7ul : 0;
  if (shown & 1) what |= SHOW_ELEMENT;
  if (shown & 2) what |= SHOW_TEXT;
  if (shown & 4) what |= SHOW_COMMENT;
  DocumentTraversal<S> t = doc.createDocumentTraversal();
  Walker w = filtered ? t.createTreeWalker(root, what, filter, true) : t.createTreeWalker(root, what, true);
  symx_check(w.getRoot() == root && w.getCurrentNode() == root && w.getWhatToShow() == what && w.getFilter() == (filtered ? &filter : 0) && w.getExpandEntityReferences(), "a walker starts at its root and remembers what it was made with");
  return w;
}
static void settings(bool filter) {
  filtered = filter;
  shown = symx_pick(2) ? 7 : symx_choose(8);
  others = true;
}
static bool step(Walker &w, Verdicts &filter, int move, const Node &root) {
  Node from = w.getCurrentNode(), want = expected(move, from, root), got = go(w, move);
  symx_note("%s", moveNames[move]);
  symx_check(got == want, "each move goes to the node next to this one in the view");
  symx_check(w.getCurrentNode() == (want != 0 ? want : from), "a walker stays where it was if there is nowhere to go");
  symx_check(!filter.hidden, "a filter is only asked about the nodes to be shown");
  return got != 0;
}
// ---- 0: every move from every node
static void moves() {
  int top = symx_pick(3);
  grow(symx_param("NODES", 3), 2, top == 0 && symx_pick(2));
  settings(symx_pick(2));
  Node root = slots[top].node, at = slots[symx_pick(slots.size())].node;
  if (!within(at, root)) return;
  Verdicts filter;
  Walker w = walker(filter, root);
  if (rejected(at, root)) return;
  w.setCurrentNode(at);
  Walker same(w);
  int move = symx_pick(7);
  step(w, filter, move, root);
  symx_check(same.getCurrentNode() == w.getCurrentNode(), "copies of a walker are the same walker");
  symx_reach("moves");
}
// ---- 1: walks, and walks of a tree which changes
static void walks() {
  grow(symx_param("WALKED", 3), symx_param("KINDS", 4));
  filtered = true; shown = 7; others = symx_pick(2);
  Node root = slots[symx_pick(2)].node;
  Verdicts filter;
  Walker w = walker(filter, root);
  bool change = symx_pick(2);
  for (int i = 0; i < symx_param("STEPS", 2); ++i) {
    if (change && i == 1) {
      Node what = slots[1 + symx_pick(slots.size() - 1)].node, parent = slots[1].node;
      if (what == parent || within(parent, what)) return;
      parent.insertBefore(what, parent.getFirstChild() == what ? what.getNextSibling() : parent.getFirstChild());
      if (rejected(w.getCurrentNode(), root)) return;
    }
    step(w, filter, symx_pick(7), root);
  }
  symx_reach("walks");
}
// ---- 2: there and back again
static void everything() {
  grow(symx_param("ALL", 4), 2);
  settings(true);
  Node root = slots[1].node;
  Verdicts filter;
  Walker w = walker(filter, root);
  std::vector<Node> all, seen;
  flatten(root, all, true);
  for (Node n = w.nextNode(); n != 0 && seen.size() <= all.size(); n = w.nextNode()) seen.push_back(n);
  symx_check(seen == all, "the view is walked in document order");
  if (seen.empty()) all.clear();
  else { all.pop_back(); if (verdict(root) == 0) all.insert(all.begin(), root); }
  seen.clear();
  for (Node n = w.previousNode(); n != 0 && seen.size() <= all.size(); n = w.previousNode()) seen.insert(seen.begin(), n);
  symx_check(seen == all, "and walked back again");
  symx_reach("everything");
}
// ---- 3: outside its root, filters which fail, nothing at all
static void odd() {
  grow(symx_param("ODD", 2), 2, symx_pick(2));
  settings(true);
  Verdicts filter;
  switch (symx_pick(4)) {
    case 0: { // a walker put outside its root still shows only what it should, and stops
      Node root = slots[2].node, at = slots[symx_pick(slots.size())].node;
      Walker w = walker(filter, root);
      w.setCurrentNode(at);
      int move = symx_pick(7);
      for (int i = 0; i < 9; ++i) {
        Node from = w.getCurrentNode(), n = go(w, move);
        symx_check(n == 0 || verdict(n) == 0, "only what is accepted is shown");
        symx_check(w.getCurrentNode() == (n != 0 ? n : from), "a walker is at the node it returned");
        if (n == 0) break;
        symx_check(i < 8, "walks end");
      }
      break;
    }
    case 1: {
      Node root = slots[1].node, at = slots[1 + symx_pick(slots.size() - 1)].node;
      Walker w = walker(filter, root);
      w.setCurrentNode(at);
      failAt = symx_pick(4);
      bool threw = false;
      Node n;
      int move = symx_pick(7);
      try { n = go(w, move); } catch (const Trouble &) { threw = true; }
      symx_check(threw == (filter.calls > failAt), "a filter's exceptions are passed on");
      if (threw) {
        symx_check(w.getCurrentNode() == at, "a walker stays where it was if its filter fails");
        failAt = -1;
        if (!rejected(at, root)) step(w, filter, move, root);
      }
      failAt = -1;
      break;
    }
    case 2: {
      Walker w = walker(filter, slots[1].node);
      bool threw = false;
      try { w.setCurrentNode(Node()); } catch (const DOM::DOMException &e) { threw = e.code() == DOM::DOMException::NOT_SUPPORTED_ERR; }
      symx_check(threw && w.getCurrentNode() == slots[1].node, "a walker cannot be nowhere");
      threw = false;
      try { doc.createDocumentTraversal().createTreeWalker(Node(), DOM::Traversal::SHOW_ALL, true); } catch (const DOM::DOMException &e) { threw = e.code() == DOM::DOMException::NOT_SUPPORTED_ERR; }
      symx_check(threw, "a walker needs a root");
      break;
    }
    default: {
      Walker w;
      { Walker v = walker(filter, slots[1].node); w = v; }
      doc = DOM::Document<S>(); // the walker keeps the tree alive
      Node r = slots[1].node;
      int n = slots.size();
      int seen = 0;
      while (w.nextNode() != 0 && seen < n) ++seen;
      symx_check(seen < n, "walks end");
      break;
    }
  }
  symx_reach("odd");
}
// ---- 4: entity references, closed and open
static void references() {
  doc = SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "", 0);
  Node r = doc.createElement("r"), e = doc.createEntityReference("e"), t = doc.createTextNode("t"), x = doc.createTextNode("x");
  doc.appendChild(r); r.appendChild(e); r.appendChild(x);
  try { e.appendChild(t); } catch (const DOM::DOMException &) { }
  Node inside = e.getFirstChild();
  bool open = symx_pick(2), shownToo = symx_pick(2);
  DOM::Traversal::DocumentTraversal<S> tr = doc.createDocumentTraversal();
  Walker w = tr.createTreeWalker(r, shownToo ? (unsigned long)DOM::Traversal::SHOW_ALL : (unsigned long)DOM::Traversal::SHOW_TEXT, open);
  std::vector<Node> want, got;
  if (shownToo) want.push_back(e);
  if (open && inside != 0) want.push_back(inside);
  want.push_back(x);
  for (Node n = w.nextNode(); n != 0 && got.size() < 5; n = w.nextNode()) got.push_back(n);
  symx_check(got == want, "the contents of entity references are shown if expanded, and not otherwise");
  symx_reach("references");
}
// ---- 5: nothing is left behind
static void leaks() {
  long live = 0;
  bool keep = symx_pick(2);
  for (int i = 0; i < 3; ++i) {
    {
      grow(1, 1);
      filtered = false; shown = 7; others = true;
      Verdicts filter;
      Walker w = walker(filter, slots[1].node), v = w;
      w.nextNode();
      w = Walker();
      if (keep) v.setCurrentNode(slots[1].node);
      slots.clear(); slots.shrink_to_fit(); doc = DOM::Document<S>();
    }
    if (i == 1) live = symx_live();
  }
  symx_check(symx_live() == live, "nothing is left behind");
  symx_reach("leaks");
}
extern "C" void symx_main(void) {
  int part = symx_pick(6), only = symx_param("ONLY", -1);
  if (only >= 0) symx_assume(part == only);
  switch (part) { case 0: moves(); break; case 1: walks(); break; case 2: everything(); break; case 3: odd(); break; case 4: references(); break; default: leaks(); }
}
