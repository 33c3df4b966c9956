// a stand-in for the expat library: it keeps the handlers, and a script makes the callbacks
#include <functional>
#include <vector>
struct XML_ParserStruct {
  void *user; // XML_GetUserData looks here
  XML_StartElementHandler start; XML_EndElementHandler end; XML_CharacterDataHandler chars; XML_ElementDeclHandler element; XML_AttlistDeclHandler attlist; XML_EntityDeclHandler entity;
  XML_NotationDeclHandler notation; XML_StartDoctypeDeclHandler sdt; XML_EndDoctypeDeclHandler edt; XML_StartCdataSectionHandler scd; XML_EndCdataSectionHandler ecd; XML_CommentHandler comment;
  XML_SkippedEntityHandler skipped; XML_ExternalEntityRefHandler external; XML_ProcessingInstructionHandler pi;
  std::vector<char> buffer;
  bool failed, finished;
  int error;
};
typedef std::function<int(XML_Parser, const char *, int, int)> Script;
static Script script, inner;
static int parsers, nobuffer;
extern "C" {
XML_Parser XML_ParserCreate(const XML_Char *) { ++parsers; return new XML_ParserStruct(); }
XML_Parser XML_ExternalEntityParserCreate(XML_Parser p, const XML_Char *, const XML_Char *) { ++parsers; XML_Parser n = new XML_ParserStruct(*p); n->failed = n->finished = false; n->error = 0; n->buffer.clear(); return n; }
void XML_ParserFree(XML_Parser p) { --parsers; delete p; }
XML_Bool XML_ParserReset(XML_Parser p, const XML_Char *) { *p = XML_ParserStruct(); return 1; }
void XML_SetUserData(XML_Parser p, void *u) { p->user = u; }
void XML_SetElementHandler(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { p->start = s; p->end = e; }
void XML_SetCharacterDataHandler(XML_Parser p, XML_CharacterDataHandler h) { p->chars = h; }
void XML_SetElementDeclHandler(XML_Parser p, XML_ElementDeclHandler h) { p->element = h; }
void XML_SetAttlistDeclHandler(XML_Parser p, XML_AttlistDeclHandler h) { p->attlist = h; }
void XML_SetEntityDeclHandler(XML_Parser p, XML_EntityDeclHandler h) { p->entity = h; }
void XML_SetNotationDeclHandler(XML_Parser p, XML_NotationDeclHandler h) { p->notation = h; }
void XML_SetDoctypeDeclHandler(XML_Parser p, XML_StartDoctypeDeclHandler s, XML_EndDoctypeDeclHandler e) { p->sdt = s; p->edt = e; }
void XML_SetCdataSectionHandler(XML_Parser p, XML_StartCdataSectionHandler s, XML_EndCdataSectionHandler e) { p->scd = s; p->ecd = e; }
void XML_SetCommentHandler(XML_Parser p, XML_CommentHandler h) { p->comment = h; }
void XML_SetSkippedEntityHandler(XML_Parser p, XML_SkippedEntityHandler h) { p->skipped = h; }
void XML_SetExternalEntityRefHandler(XML_Parser p, XML_ExternalEntityRefHandler h) { p->external = h; }
void XML_SetProcessingInstructionHandler(XML_Parser p, XML_ProcessingInstructionHandler h) { p->pi = h; }
int XML_SetParamEntityParsing(XML_Parser, enum XML_ParamEntityParsing) { return 1; }
void *XML_GetBuffer(XML_Parser p, int n) { if (nobuffer && !--nobuffer) { p->error = XML_ERROR_NO_MEMORY; return 0; } p->buffer.assign(n, 0); return p->buffer.data(); }
enum XML_Status XML_ParseBuffer(XML_Parser p, int n, int final) {
  if (p->failed || p->finished) { p->error = XML_ERROR_FINISHED; return XML_STATUS_ERROR; } // as expat: reset first
  Script &s = inner && p->failed == false && p->error == 0 && parsers > 1 ? inner : script;
  if (final) p->finished = true;
  if (s(p, p->buffer.data(), n, final)) return XML_STATUS_OK;
  p->failed = true;
  if (!p->error) p->error = XML_ERROR_SYNTAX;
  return XML_STATUS_ERROR;
}
enum XML_Error XML_GetErrorCode(XML_Parser p) { return (enum XML_Error)p->error; }
const XML_LChar *XML_ErrorString(enum XML_Error e) { return e == XML_ERROR_NONE ? 0 : e == XML_ERROR_SYNTAX ? "syntax" : e == XML_ERROR_EXTERNAL_ENTITY_HANDLING ? "entity" : e == XML_ERROR_FINISHED ? "finished" : "other"; }
XML_Size XML_GetCurrentLineNumber(XML_Parser) { return 1; }
XML_Size XML_GetCurrentColumnNumber(XML_Parser) { return 0; }
}

