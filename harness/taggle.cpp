// C29: whatever bytes Taggle is given, what it reports is a well-formed document with all the text in it.
#include <iostream>
#include <vector>
#include <map>
#include <memory>
#include "symx.h"
#include "symx_locale.h"
#include <Taggle/Taggle.hpp>
using namespace Arabica;
typedef std::string S;
// ---- input which is decided on as it is read
struct Source : public std::streambuf {
  S text;
  virtual ~Source() { }
  virtual bool more() = 0; // append to text, or false at the end
  int_type underflow() {
    size_t at = gptr() - eback();
    if (at < text.size()) return traits_type::to_int_type(*gptr());
    while (at >= text.size()) if (!more()) { if (symx_replaying()) symx_note("all of %s", text.c_str()); return traits_type::eof(); }
    if (symx_replaying()) symx_note("read %s", text.c_str());
    char *t = const_cast<char*>(text.data());
    setg(t, t + at, t + text.size());
    return traits_type::to_int_type(*gptr());
  }
  int_type pbackfail(int_type) { return traits_type::eof(); }
};
static bool nameStart(char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'); }
static bool nameChar(char c) { return nameStart(c) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.'); }
static bool ncname(const S &s) {
  if (s.empty() || !nameStart(s[0])) return false;
  for (unsigned i = 1; i < s.size(); ++i) if (!nameChar(s[i])) return false;
  return true;
}
static bool qname(const S &s) { size_t colon = s.find(':'); return colon == S::npos ? ncname(s) : ncname(s.substr(0, colon)) && ncname(s.substr(colon + 1)); }
static bool legal(const S &s) { // XML characters, given that all other bytes are
  for (unsigned i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (!((c >= 0x20) | (c == '\n') | (c == '\t') | (c == '\r'))) return false; }
  return true;
}
struct Trouble {};
static int troubleAt = -1;
// ---- what's reported, checked as it comes
struct Ears : public SAX::DefaultHandler<S> {
  struct Open { S uri, local, name; unsigned prefixes; };
  std::vector<Open> open;
  std::vector<std::pair<S, S> > prefixes; // in scope
  unsigned fresh; // declared for the next element
  int state; // 0 nothing 1 document 2 ended
  bool located, rooted, dtd, inDtd;
  S text, events, ignored, doctype, publicId, systemId, resolved;
  int calls;
  Ears() : fresh(0), state(0), located(false), rooted(false), dtd(false), inDtd(false), calls(0) { }
  void trouble() { if (calls++ == troubleAt) throw Trouble(); }
  void setDocumentLocator(const SAX::Locator<S> &) { symx_check(state == 0, "the locator comes first"); located = true; trouble(); }
  void startDocument() { symx_check(state == 0, "a document starts once"); state = 1; trouble(); }
  void endDocument() { symx_check(state == 1 && open.empty() && rooted && prefixes.empty(), "a document ends when everything in it has"); state = 2; trouble(); }
  void startPrefixMapping(const S &p, const S &u) {
    symx_check(state == 1 && p != "xml" && p != "xmlns", "prefixes are declared in the document");
    for (unsigned i = prefixes.size() - fresh; i < prefixes.size(); ++i) symx_check(prefixes[i].first != p, "a prefix is declared once for an element");
    prefixes.push_back(std::make_pair(p, u)); ++fresh;
    trouble();
  }
  void endPrefixMapping(const S &p) {
    bool found = false;
    for (unsigned i = prefixes.size(); i > 0 && !found; --i) if (prefixes[i - 1].first == p) { prefixes.erase(prefixes.begin() + (i - 1)); found = true; }
    symx_check(found, "declarations end which began");
    trouble();
  }
  void name(const S &uri, const S &local, const S &qname, bool attribute) {
    size_t colon = qname.find(':');
    S prefix = colon == S::npos ? S() : qname.substr(0, colon), rest = colon == S::npos ? qname : qname.substr(colon + 1);
    symx_check(ncname(rest) && (colon == S::npos || ncname(prefix)), "names are names");
    symx_check(rest == local, "local names are the names without prefixes");
    if (colon == S::npos) { symx_check(uri == (attribute ? "" : "http://www.w3.org/1999/xhtml"), "names without prefixes are HTML's"); return; }
    if (prefix == "xml") { symx_check(uri == "http://www.w3.org/XML/1998/namespace", "xml is XML's prefix"); return; }
    S bound;
    for (unsigned i = 0; i < prefixes.size(); ++i) if (prefixes[i].first == prefix) bound = prefixes[i].second;
    symx_check(!uri.empty() && bound == uri, "prefixes mean what they were declared to");
  }
  void startElement(const S &uri, const S &local, const S &qname, const SAX::Attributes<S> &atts) {
    symx_check(state == 1 && (!open.empty() || !rooted) && !inDtd, "there is one root");
    rooted = true;
    name(uri, local, qname, false);
    events += "<" + qname;
    for (int i = 0; i < atts.getLength(); ++i) {
      name(atts.getURI(i), atts.getLocalName(i), atts.getQName(i), true);
      symx_check(atts.getQName(i) != "xmlns" && atts.getQName(i).find("xmlns:") != 0, "declarations are not attributes");
      symx_check(legal(atts.getValue(i)), "values are XML characters");
      for (int j = 0; j < i; ++j) symx_check(atts.getQName(i) != atts.getQName(j) && !(atts.getLocalName(i) == atts.getLocalName(j) && atts.getURI(i) == atts.getURI(j)), "attributes appear once");
      events += " " + atts.getQName(i) + "=" + atts.getValue(i) + "|";
    }
    events += ">";
    Open o = {uri, local, qname, fresh};
    open.push_back(o);
    fresh = 0;
    trouble();
  }
  void endElement(const S &uri, const S &local, const S &qname) {
    symx_check(state == 1 && !open.empty() && fresh == 0, "elements end which began");
    if (!open.empty()) { symx_check(open.back().uri == uri && open.back().local == local && open.back().name == qname, "elements nest"); open.pop_back(); }
    events += "</" + qname + ">";
    trouble();
  }
  void characters(const S &s) {
    symx_check(state == 1 && !open.empty(), "text is in the root");
    symx_check(legal(s), "text is XML characters");
    text += s; events += s;
    trouble();
  }
  void ignorableWhitespace(const S &s) { symx_check(state == 1, "whitespace is in the document"); ignored += s; trouble(); }
  void processingInstruction(const S &target, const S &data) {
    symx_check(state == 1 && !inDtd && ncname(target) && !(target.size() == 3 && (target[0] | 32) == 'x' && (target[1] | 32) == 'm' && (target[2] | 32) == 'l'), "targets are names other than xml");
    symx_check(data.find("?>") == S::npos && legal(data), "instructions hold no end of instruction");
    events += "?" + target + " " + data + "?";
    trouble();
  }
  void skippedEntity(const S &) { symx_fail("no entities are skipped"); }
  void comment(const S &s) {
    symx_check(state == 1 && !inDtd && s.find("--") == S::npos && (s.empty() || s[s.size() - 1] != '-') && legal(s), "comments hold no end of comment");
    events += "!" + s + "!";
    trouble();
  }
  void startDTD(const S &n, const S &p, const S &s) { symx_check(state == 1 && !rooted && !dtd && qname(n), "a document type comes once, before the root"); dtd = inDtd = true; doctype = n; publicId = p; systemId = s; trouble(); }
  void endDTD() { symx_check(inDtd, "a document type ends once"); inDtd = false; trouble(); }
  void startEntity(const S &) { }
  void endEntity(const S &) { }
  void startCDATA() { }
  void endCDATA() { }
  InputSourceT resolveEntity(const S &p, const S &s) { resolved += p + "|" + s + "|"; trouble(); return InputSourceT(); }
};
typedef SAX::Taggle<S> Parser;
struct Heard { bool threw; };
static void hear(Parser &parser, Source &source, Ears &ears) {
  parser.setContentHandler(ears);
  parser.setLexicalHandler(ears);
  parser.setEntityResolver(ears);
  parser.setErrorHandler(ears);
  std::istream stream(&source);
  SAX::InputSource<S> input(stream);
  input.setSystemId("file:///doc/t.html");
  parser.parse(input);
  symx_check(ears.state == 2 && ears.located, "a document which starts ends");
}
static bool options(Parser &p, bool &bogons) {
  bogons = true;
  int way = symx_pick(symx_param("OPTIONS", 5));
  switch (way) {
    case 0: break;
    case 1: p.setFeature(Parser::ignoreBogonsFeature, true); bogons = false; break;
    case 2: p.setFeature(Parser::bogonsEmptyFeature, true); p.setFeature(Parser::rootBogonsFeature, false); break;
    case 3: p.setFeature(Parser::translateColonsFeature, true); p.setFeature(Parser::defaultAttributesFeature, false); break;
    case 4: p.setFeature(Parser::restartElementsFeature, false); p.setFeature(Parser::CDATAElementsFeature, false); p.setFeature(Parser::ignorableWhitespaceFeature, true); break;
  }
  return way == 0;
}
// ---- 0: any characters at all, in any context
struct Soup : public Source {
  int left, context;
  S before, after;
  Soup(bool usual) : left(symx_param("SOUP", 3) - !usual), context(-1) { }
  bool more() {
    static const char *contexts[][2] = {
      {"", ""}, {"<", ">x"}, {"<a ", ">x</a>"}, {"<a b", "c>x"}, {"<a b=", ">x</a>"}, {"<a b='", "'>x"}, {"<!", ">x"}, {"<!--", "-->x"}, {"<?", ">x"}, {"&", ";x"}, {"&#", ";x"}, {"<script>", "</script>x"},
      {"<![CDATA[", "]]>x"}, {"<!DOCTYPE ", ">x"}, {"<!DOCTYPE a PUBLIC ", ">"}, {"</", ">x"}, {"x<!--a-", "->y"}, {"<a b='&", ";'>x"}};
    if (context < 0) {
      context = symx_pick(18); before = contexts[context][0]; after = contexts[context][1];
      if (context == 0 || symx_pick(2)) after = ""; // cut short
      if (!before.empty()) { text += before; return true; }
    }
    if (left > 0) { --left; text += symx_in("<>/!?-[]&;#x=\"' ab:1\n\x01", 22); return true; }
    if (after.empty()) return false;
    text += after; after = "";
    return true;
  }
};
static void soup() {
  Parser parser;
  bool bogons;
  bool usual = options(parser, bogons);
  Soup source(usual);
  Ears ears;
  hear(parser, source, ears);
  symx_reach("soup");
}
// ---- 1: tags in any order
struct Tags : public Source {
  int left; bool bogons, words;
  S wanted, order;
  Tags(bool bogons, bool usual) : left(symx_param("TAGS", 3) - !usual), bogons(bogons), words(symx_pick(2)) { }
  bool more() {
    static const char *names[] = {"b", "p", "table", "td", "form", "li", "br", "html", "body", "nonsense", "a", "title", "n:onsense", "ul", "tr", "h1", "select", "option", "head", "frameset"}; // names
    if (left-- == 0) return false;
    S name = names[symx_pick(symx_param("NAMES", 12))];
    bool end = symx_pick(2);
    text += (end ? "</" : "<") + name + ">";
    if (!end && (bogons || (name != "nonsense" && name != "n:onsense"))) order += "<" + name;
    if (words) { char c = symx_in("789", 3); text += c; wanted += c; order += c; }
    return true;
  }
};
static void tags() {
  Parser parser;
  bool bogons;
  bool usual = options(parser, bogons);
  Tags source(bogons, usual);
  Ears ears;
  bool colons = parser.getFeature(Parser::translateColonsFeature);
  hear(parser, source, ears);
  symx_check(ears.text == source.wanted, "all text is kept, in order");
  S order = source.order; // a subsequence of what was reported
  size_t at = 0;
  for (size_t i = 0; i < order.size() && at != S::npos;) {
    if (order[i] != '<') { at = ears.events.find(order[i], at); while (at != S::npos && at > 0 && !(ears.events[at - 1] == '>' || (ears.events[at - 1] >= '7' && ears.events[at - 1] <= '9'))) at = ears.events.find(order[i], at + 1); if (at != S::npos) ++at; ++i; continue; }
    size_t j = i + 1;
    while (j < order.size() && order[j] != '<' && !(order[j] >= '7' && order[j] <= '9')) ++j;
    S tag = order.substr(i, j - i);
    if (colons && tag == "<n:onsense") tag = "<n_onsense";
    for (at = ears.events.find(tag, at); at != S::npos; at = ears.events.find(tag, at + 1)) { char next = ears.events[at + tag.size()]; if (next == '>' || next == ' ') break; }
    if (at != S::npos) at += tag.size();
    i = j;
  }
  if (symx_replaying()) symx_note("%s gives %s not %s", source.text.c_str(), ears.events.c_str(), order.c_str());
  symx_check(at != S::npos, "every element started is there, in order, with the text where it was");
  symx_reach("tags");
}
// ---- 2: contents are as written
struct Contents : public Source {
  int left; bool begun;
  S wanted;
  Contents() : left(symx_param("CONTENTS", 2)), begun(false) { }
  bool more() {
    if (!begun) { begun = true; text = "<html><body><div>"; return true; }
    if (left < 0) return false;
    if (left-- == 0) { text += "</div></body></html>"; return true; }
    char c = symx_char();
    symx_assume(((unsigned char)c >= 0x20) | (c == '\n') | (c == '\t') | (c == '\r'));
    switch (symx_pick(17)) {
      case 0: symx_assume((c != '<') & (c != '&') & (c != '\r')); text += c; wanted += c; break;
      case 1: entity(); break;
      case 2: symx_assume((c != '-') & (c != '\r') & (c != '>')); text += S("<!--") + c + "-->"; wanted += S("!") + c + "!"; break;
      case 3: symx_assume((c != '>') & (c != '?') & (c != '\r')); text += S("<?t ") + c + "?>"; wanted += S("?t ") + c + "?"; break;
      case 4: symx_assume((c != ']') & (c != '\r')); text += S("<![CDATA[") + c + "]]>"; wanted += c; break;
      case 5: symx_assume((c != '\'') & (c != '&') & (c != '\r')); text += S("<i t='") + c + "'>"; wanted += "<i"; value(S(1, c == '\n' || c == '\t' ? ' ' : c)); break;
      case 6: symx_assume((c != '"') & (c != '&') & (c != '\r')); text += S("<i t=\"") + c + "\">"; wanted += "<i"; value(S(1, c == '\n' || c == '\t' ? ' ' : c)); break;
      case 7: symx_assume((c != '\'') & (c != '"') & (c != '&') & (c != '\r') & (c != '>') & (c != ' ') & (c != '\n') & (c != '\t') & (c != '<')); text += S("<i T =  ") + c + " >"; wanted += "<i"; value(S(1, c)); break;
      case 8: symx_assume((c != '<') & (c != '\r')); text += S("<SCRIPT>") + c + "<b></b><i>x</i></SCRIPT>"; wanted += S("<script>") + c + "<b></b><i>x</i></script>"; break;
      case 9: text += "<br/>"; wanted += "<br clear=none|></br>"; break;
      case 10: text += "<i t>"; wanted += "<i"; value("t"); break;
      case 11: text += "<i t='v' u=\"w\" t=x>"; wanted += "<i t=x| u=w|></i>"; text += "</i>"; break;
      case 12: text += "\r\n"; wanted += "\n"; break;
      case 13: { S s(symx_pick(2) ? 179 : 401, 'q'); text += s + c; symx_assume((c != '<') & (c != '&') & (c != '\r')); wanted += s + c; break; }
      case 14: text += "<i t='&#6"; { char d = symx_in("0123456789", 10); text += d; text += ";&lt;&nothing;&#xe9;&"; wanted += "<i"; value(S(1, char(60 + (d - '0'))) + "<&nothing;\xc3\xa9&"); } break;
      case 15: { char x = symx_in("\xc3\xa9\xe2\x82\xac", 5); symx_assume(true); text += S("\xc3\xa9\xe2\x82\xac") ; wanted += "\xc3\xa9\xe2\x82\xac"; (void)x; break; }
      default: text += "a < b"; wanted += "a < b"; break;
    }
    return true;
  }
  void value(const S &v) { bool close = text.size() > 0 && text[text.size() - 1] != '>'; if (close) text += "'>"; wanted += " t=" + v + "|></i>"; text += "</i>"; }
  void entity() {
    static const char *entities[][2] = {{"&amp;", "&"}, {"&lt;", "<"}, {"&eacute;", "\xc3\xa9"}, {"&euro;", "\xe2\x82\xac"}, {"&#233;", "\xc3\xa9"}, {"&#x20AC;", "\xe2\x82\xac"}, {"&#x1F600;", "\xf0\x9f\x98\x80"},
      {"&nothing;", "&nothing;"}, {"& ", "& "}, {"&amp-", "&-"}, {"&#1;", " "}, {"&#xD800;", ""}, {"&#x110000;", "&#x110000;"}, {"&#0;", "&#0;"}, {"&#99999999999;", "&#99999999999;"}, {"&#;", "&#;"}, {"&#xFFFF;", ""}};
    int e = symx_pick(18);
    if (e < 17) { text += entities[e][0]; wanted += entities[e][1]; return; }
    char a = symx_in("0123456789", 10), b = symx_in("0123456789", 10);
    int n = 100 + (a - '0') * 10 + (b - '0');
    symx_assume((n < 128) | (n > 159)); // Windows characters
    text += S("&#1") + a + b + ";";
    if (n < 128) wanted += char(n); else { wanted += char(0xc0 | (n >> 6)); wanted += char(0x80 | (n & 63)); }
  }
};
static void contents() {
  Parser parser;
  Contents source;
  Ears ears;
  hear(parser, source, ears);
  if (symx_replaying()) symx_note("%s gives %s not %s", source.text.c_str(), ears.events.c_str(), source.wanted.c_str());
  symx_check(ears.events == "<html><body><div>" + source.wanted + "</div></body></html>", "what is well written is reported as written");
  symx_reach("contents");
}
// ---- 3: document types
struct Doctype : public Source {
  bool begun; S name, publicId, systemId; bool late, brief;
  Doctype(bool brief) : begun(false), late(false), brief(brief) { }
  int pick(int n) { return brief ? n - 1 : symx_pick(n); }
  bool more() {
    if (begun) return false;
    begun = true;
    static const char *keywords[] = {"DOCTYPE", "doctype", "DocType"};
    int keyword = pick(3); bool upper = keyword == 0;
    char quote = pick(2) ? '"' : '\'', a = symx_in("ab.", 3);
    S space = pick(2) ? " " : " \n ";
    late = !brief && pick(4) == 3;
    if (late) text = "<p>";
    S after;
    switch (pick(4)) {
      case 0: break;
      case 1: systemId = S("s") + a; after = space + (upper ? "SYSTEM" : "system") + space + quote + systemId + quote; break;
      case 2: publicId = S("-//P ") + a; after = space + (upper ? "PUBLIC" : "Public") + space + quote + publicId + quote; break;
      default: publicId = S("-//P//") + a; systemId = S("s t") + a; after = space + (upper ? "PUBLIC" : "Public") + space + quote + publicId + quote + space + quote + systemId + quote; break;
    }
    name = pick(2) ? "html" : "HTML";
    text += S("<!") + keywords[keyword] + space + name + after + (pick(2) ? "" : " ") + "><p>x";
    if (pick(2)) text += "<!DOCTYPE other>";
    return true;
  }
};
static void doctypes() {
  Parser parser;
  for (int again = 0; again < 2; ++again) {
    Doctype source(again > 0);
    Ears ears;
    hear(parser, source, ears);
    if (source.late) symx_check(!ears.dtd, "a document type among the elements is left out");
    else {
      symx_check(ears.dtd && ears.doctype == source.name && ears.publicId == source.publicId && ears.systemId == source.systemId, "the document type is reported as written");
      symx_check(ears.resolved == source.publicId + "|" + (source.systemId.empty() ? S("file:///doc/") : "file:///doc/" + source.systemId) + "|" || source.systemId.empty() || source.systemId.find(' ') != S::npos, "the external subset is resolved against the document");
    }
    symx_check(ears.text == "x", "all text is kept");
    if (!symx_pick(2)) break;
  }
  symx_reach("doctypes");
}
// ---- 4: handlers which fail; parsers used again; nothing left behind
struct Fixed : public Source {
  S s; bool done;
  Fixed(const S &s) : s(s), done(false) { }
  bool more() { if (done) return false; done = true; text = s; return true; }
};
static void again() {
  static const char *first[] = {"<!DOCTYPE html><p a:b='c'>x<b><?t d?><!--c-->y</p><script>z", "<x><b><table><b>q", "<p a"};
  const char *last = "<!DOCTYPE html><b>x<p c=d>y</b>z";
  Parser parser, fresh;
  Ears quiet, want;
  { Fixed s(last); hear(fresh, s, want); }
  troubleAt = symx_pick(26) - 1;
  {
    Fixed s(first[symx_pick(3)]);
    Ears ears;
    bool threw = false;
    try { hear(parser, s, ears); } catch (const Trouble &) { threw = true; }
    symx_check(threw == (troubleAt >= 0 && ears.calls > troubleAt), "a handler's exceptions are passed on");
    troubleAt = -1;
  }
  Ears ears;
  { Fixed s(last); hear(parser, s, ears); }
  symx_check(ears.events == want.events && ears.doctype == want.doctype && ears.resolved == want.resolved, "a parser used again is as new");
  symx_reach("again");
}
static void leaks() {
  long live = 0;
  int way = symx_pick(2);
  for (int i = 0; i < 3; ++i) {
    {
      Parser parser;
      for (int k = 0; k < 2; ++k) {
        Fixed s("<!DOCTYPE html><p a:b='c'>x<b><i>y</p><nonsense>z<form><td></form>");
        Ears ears;
        if (way) troubleAt = 12;
        try { hear(parser, s, ears); } catch (const Trouble &) { }
        troubleAt = -1;
      }
    }
    if (i == 1) live = symx_live();
  }
  symx_check(symx_live() == live, "nothing is left behind");
  symx_reach("leaks");
}
extern "C" void symx_main(void) {
  symx_locale();
  int part = symx_pick(6), only = symx_param("ONLY", -1);
  if (only >= 0) symx_assume(part == only);
  switch (part) { case 0: soup(); break; case 1: tags(); break; case 2: contents(); break; case 3: doctypes(); break; case 4: again(); break; default: leaks(); }
}
