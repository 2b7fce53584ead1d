-------------------------------- MODULE XmlRole --------------------------------
(* The grammar of the prolog and of external subsets: an automaton that gives each *)
(* prolog token its role.  State: st (automaton state), level (nesting of a content *)
(* model), incl (open INCLUDE sections), docEnt (document entity or external        *)
(* subset), rn (role of a token that only completes a declaration), inEV (inside an *)
(* entity value).                                                                   *)
EXTENDS XmlTok

KW_DOCTYPE == <<68, 79, 67, 84, 89, 80, 69>>
KW_SYSTEM == <<83, 89, 83, 84, 69, 77>>
KW_PUBLIC == <<80, 85, 66, 76, 73, 67>>
KW_ENTITY == <<69, 78, 84, 73, 84, 89>>
KW_ATTLIST == <<65, 84, 84, 76, 73, 83, 84>>
KW_ELEMENT == <<69, 76, 69, 77, 69, 78, 84>>
KW_NOTATION == <<78, 79, 84, 65, 84, 73, 79, 78>>
KW_NDATA == <<78, 68, 65, 84, 65>>
KW_CDATA == <<67, 68, 65, 84, 65>>
KW_ID == <<73, 68>>
KW_IDREF == <<73, 68, 82, 69, 70>>
KW_IDREFS == <<73, 68, 82, 69, 70, 83>>
KW_ENTITIES == <<69, 78, 84, 73, 84, 73, 69, 83>>
KW_NMTOKEN == <<78, 77, 84, 79, 75, 69, 78>>
KW_NMTOKENS == <<78, 77, 84, 79, 75, 69, 78, 83>>
KW_IMPLIED == <<73, 77, 80, 76, 73, 69, 68>>
KW_REQUIRED == <<82, 69, 81, 85, 73, 82, 69, 68>>
KW_FIXED == <<70, 73, 88, 69, 68>>
KW_EMPTY == <<69, 77, 80, 84, 89>>
KW_ANY == <<65, 78, 89>>
KW_PCDATA == <<80, 67, 68, 65, 84, 65>>
KW_INCLUDE == <<73, 78, 67, 76, 85, 68, 69>>
KW_IGNORE == <<73, 71, 78, 79, 82, 69>>

RoleInit == [st |-> "prolog0", level |-> 0, incl |-> 0, docEnt |-> TRUE, rn |-> "NONE", inEV |-> FALSE]
RoleInitExt == [RoleInit EXCEPT !.st = "externalSubset0", !.docEnt = FALSE]

\* one transition: next state and role
G(r, st, role) == [r |-> [r EXCEPT !.st = st], role |-> role]
Done(r, st, rn, role) == [r |-> [r EXCEPT !.st = st, !.rn = rn], role |-> role]
Stay(r, role) == [r |-> r, role |-> role]
Top(r, role) == G(r, IF r.docEnt THEN "internalSubset" ELSE "externalSubset1", role)
\* any token without a transition: a parameter entity reference outside the document entity
\* may occur anywhere, all else is a syntax error
Common(r, tok) == IF ~r.docEnt /\ tok = "PARAM_ENTITY_REF" THEN Stay(r, "INNER_PARAM_ENTITY_REF") ELSE G(r, "error", "ERROR")

Names == {"NAME", "PREFIXED_NAME"}

InternalSubset(r, tok, txt) ==
  CASE tok = "PROLOG_S" -> Stay(r, "NONE")
    [] tok = "DECL_OPEN" ->
         (CASE txt = KW_ENTITY -> G(r, "entity0", "ENTITY_NONE")
            [] txt = KW_ATTLIST -> G(r, "attlist0", "ATTLIST_NONE")
            [] txt = KW_ELEMENT -> G(r, "element0", "ELEMENT_NONE")
            [] txt = KW_NOTATION -> G(r, "notation0", "NOTATION_NONE")
            [] OTHER -> Common(r, tok))
    [] tok = "PI" -> Stay(r, "PI")
    [] tok = "COMMENT" -> Stay(r, "COMMENT")
    [] tok = "PARAM_ENTITY_REF" -> Stay(r, "PARAM_ENTITY_REF")
    [] tok = "CLOSE_BRACKET" -> G(r, "doctype5", "DOCTYPE_NONE")
    [] tok = "NONE" -> Stay(r, "NONE")
    [] OTHER -> Common(r, tok)

ExternalSubset1(r, tok, txt) ==
  CASE tok = "COND_SECT_OPEN" -> G(r, "condSect0", "NONE")
    [] tok = "COND_SECT_CLOSE" -> (IF r.incl = 0 THEN Common(r, tok) ELSE Stay([r EXCEPT !.incl = @ - 1], "NONE"))
    [] tok = "PROLOG_S" -> Stay(r, "NONE")
    [] tok = "CLOSE_BRACKET" -> Common(r, tok)
    [] tok = "NONE" -> (IF r.incl # 0 THEN Common(r, tok) ELSE Stay(r, "NONE"))
    [] OTHER -> InternalSubset(r, tok, txt)

\* states in which white space has a fixed role and which are left by few tokens
RoleOf(r, tok, txt) ==
  LET st == r.st IN
  CASE st = "prolog0" ->
         (CASE tok = "PROLOG_S" -> G(r, "prolog1", "NONE")
            [] tok = "XML_DECL" -> G(r, "prolog1", "XML_DECL")
            [] tok = "PI" -> G(r, "prolog1", "PI")
            [] tok = "COMMENT" -> G(r, "prolog1", "COMMENT")
            [] tok = "BOM" -> Stay(r, "NONE")
            [] tok = "DECL_OPEN" -> (IF txt = KW_DOCTYPE THEN G(r, "doctype0", "DOCTYPE_NONE") ELSE Common(r, tok))
            [] tok = "INSTANCE_START" -> G(r, "error", "INSTANCE_START")
            [] OTHER -> Common(r, tok))
    [] st = "prolog1" ->
         (CASE tok = "PROLOG_S" -> Stay(r, "NONE")
            [] tok = "PI" -> Stay(r, "PI")
            [] tok = "COMMENT" -> Stay(r, "COMMENT")
            [] tok = "BOM" -> Stay(r, "NONE")
            [] tok = "DECL_OPEN" -> (IF txt = KW_DOCTYPE THEN G(r, "doctype0", "DOCTYPE_NONE") ELSE Common(r, tok))
            [] tok = "INSTANCE_START" -> G(r, "error", "INSTANCE_START")
            [] OTHER -> Common(r, tok))
    [] st = "prolog2" ->
         (CASE tok = "PROLOG_S" -> Stay(r, "NONE")
            [] tok = "PI" -> Stay(r, "PI")
            [] tok = "COMMENT" -> Stay(r, "COMMENT")
            [] tok = "INSTANCE_START" -> G(r, "error", "INSTANCE_START")
            [] OTHER -> Common(r, tok))
    [] st \in {"doctype0", "doctype1", "doctype2", "doctype3", "doctype4", "doctype5"} ->
         (CASE tok = "PROLOG_S" -> Stay(r, "DOCTYPE_NONE")
            [] st = "doctype0" /\ tok \in Names -> G(r, "doctype1", "DOCTYPE_NAME")
            [] st \in {"doctype1", "doctype4"} /\ tok = "OPEN_BRACKET" -> G(r, "internalSubset", "DOCTYPE_INTERNAL_SUBSET")
            [] st \in {"doctype1", "doctype4", "doctype5"} /\ tok = "DECL_CLOSE" -> G(r, "prolog2", "DOCTYPE_CLOSE")
            [] st = "doctype1" /\ tok = "NAME" ->
                 (CASE txt = KW_SYSTEM -> G(r, "doctype3", "DOCTYPE_NONE")
                    [] txt = KW_PUBLIC -> G(r, "doctype2", "DOCTYPE_NONE")
                    [] OTHER -> Common(r, tok))
            [] st = "doctype2" /\ tok = "LITERAL" -> G(r, "doctype3", "DOCTYPE_PUBLIC_ID")
            [] st = "doctype3" /\ tok = "LITERAL" -> G(r, "doctype4", "DOCTYPE_SYSTEM_ID")
            [] OTHER -> Common(r, tok))
    [] st = "internalSubset" -> InternalSubset(r, tok, txt)
    [] st = "externalSubset0" ->
         (IF tok = "XML_DECL" THEN G(r, "externalSubset1", "TEXT_DECL")
          ELSE ExternalSubset1([r EXCEPT !.st = "externalSubset1"], tok, txt))
    [] st = "externalSubset1" -> ExternalSubset1(r, tok, txt)
    [] st \in {"entity0", "entity1", "entity2", "entity3", "entity4", "entity5", "entity6", "entity7",
               "entity8", "entity9", "entity10"} ->
         (CASE tok = "PROLOG_S" -> Stay(r, "ENTITY_NONE")
            [] st = "entity0" /\ tok = "PERCENT" -> G(r, "entity1", "ENTITY_NONE")
            [] st = "entity0" /\ tok = "NAME" -> G(r, "entity2", "GENERAL_ENTITY_NAME")
            [] st = "entity1" /\ tok = "NAME" -> G(r, "entity7", "PARAM_ENTITY_NAME")
            [] st = "entity2" /\ tok = "NAME" ->
                 (CASE txt = KW_SYSTEM -> G(r, "entity4", "ENTITY_NONE")
                    [] txt = KW_PUBLIC -> G(r, "entity3", "ENTITY_NONE")
                    [] OTHER -> Common(r, tok))
            [] st \in {"entity2", "entity7"} /\ tok = "LITERAL" -> Done(r, "declClose", "ENTITY_NONE", "ENTITY_VALUE")
            [] st = "entity3" /\ tok = "LITERAL" -> G(r, "entity4", "ENTITY_PUBLIC_ID")
            [] st = "entity4" /\ tok = "LITERAL" -> G(r, "entity5", "ENTITY_SYSTEM_ID")
            [] st = "entity5" /\ tok = "NAME" /\ txt = KW_NDATA -> G(r, "entity6", "ENTITY_NONE")
            [] st \in {"entity5", "entity10"} /\ tok = "DECL_CLOSE" -> Top(r, "ENTITY_COMPLETE")
            [] st = "entity6" /\ tok = "NAME" -> Done(r, "declClose", "ENTITY_NONE", "ENTITY_NOTATION_NAME")
            [] st = "entity7" /\ tok = "NAME" ->
                 (CASE txt = KW_SYSTEM -> G(r, "entity9", "ENTITY_NONE")
                    [] txt = KW_PUBLIC -> G(r, "entity8", "ENTITY_NONE")
                    [] OTHER -> Common(r, tok))
            [] st = "entity8" /\ tok = "LITERAL" -> G(r, "entity9", "ENTITY_PUBLIC_ID")
            [] st = "entity9" /\ tok = "LITERAL" -> G(r, "entity10", "ENTITY_SYSTEM_ID")
            [] OTHER -> Common(r, tok))
    [] st \in {"notation0", "notation1", "notation2", "notation3", "notation4"} ->
         (CASE tok = "PROLOG_S" -> Stay(r, "NOTATION_NONE")
            [] st = "notation0" /\ tok = "NAME" -> G(r, "notation1", "NOTATION_NAME")
            [] st = "notation1" /\ tok = "NAME" ->
                 (CASE txt = KW_SYSTEM -> G(r, "notation3", "NOTATION_NONE")
                    [] txt = KW_PUBLIC -> G(r, "notation2", "NOTATION_NONE")
                    [] OTHER -> Common(r, tok))
            [] st = "notation2" /\ tok = "LITERAL" -> G(r, "notation4", "NOTATION_PUBLIC_ID")
            [] st \in {"notation3", "notation4"} /\ tok = "LITERAL" ->
                 Done(r, "declClose", "NOTATION_NONE", "NOTATION_SYSTEM_ID")
            [] st = "notation4" /\ tok = "DECL_CLOSE" -> Top(r, "NOTATION_NO_SYSTEM_ID")
            [] OTHER -> Common(r, tok))
    [] st \in {"attlist0", "attlist1", "attlist2", "attlist3", "attlist4", "attlist5", "attlist6", "attlist7",
               "attlist8", "attlist9"} ->
         (CASE tok = "PROLOG_S" -> Stay(r, "ATTLIST_NONE")
            [] st = "attlist0" /\ tok \in Names -> G(r, "attlist1", "ATTLIST_ELEMENT_NAME")
            [] st = "attlist1" /\ tok = "DECL_CLOSE" -> Top(r, "ATTLIST_NONE")
            [] st = "attlist1" /\ tok \in Names -> G(r, "attlist2", "ATTRIBUTE_NAME")
            [] st = "attlist2" /\ tok = "NAME" ->
                 (CASE txt = KW_CDATA -> G(r, "attlist8", "ATTRIBUTE_TYPE_CDATA")
                    [] txt = KW_ID -> G(r, "attlist8", "ATTRIBUTE_TYPE_ID")
                    [] txt = KW_IDREF -> G(r, "attlist8", "ATTRIBUTE_TYPE_IDREF")
                    [] txt = KW_IDREFS -> G(r, "attlist8", "ATTRIBUTE_TYPE_IDREFS")
                    [] txt = KW_ENTITY -> G(r, "attlist8", "ATTRIBUTE_TYPE_ENTITY")
                    [] txt = KW_ENTITIES -> G(r, "attlist8", "ATTRIBUTE_TYPE_ENTITIES")
                    [] txt = KW_NMTOKEN -> G(r, "attlist8", "ATTRIBUTE_TYPE_NMTOKEN")
                    [] txt = KW_NMTOKENS -> G(r, "attlist8", "ATTRIBUTE_TYPE_NMTOKENS")
                    [] txt = KW_NOTATION -> G(r, "attlist5", "ATTLIST_NONE")
                    [] OTHER -> Common(r, tok))
            [] st = "attlist2" /\ tok = "OPEN_PAREN" -> G(r, "attlist3", "ATTLIST_NONE")
            [] st = "attlist3" /\ tok \in Names \cup {"NMTOKEN"} -> G(r, "attlist4", "ATTRIBUTE_ENUM_VALUE")
            [] st \in {"attlist4", "attlist7"} /\ tok = "CLOSE_PAREN" -> G(r, "attlist8", "ATTLIST_NONE")
            [] st = "attlist4" /\ tok = "OR" -> G(r, "attlist3", "ATTLIST_NONE")
            [] st = "attlist5" /\ tok = "OPEN_PAREN" -> G(r, "attlist6", "ATTLIST_NONE")
            [] st = "attlist6" /\ tok = "NAME" -> G(r, "attlist7", "ATTRIBUTE_NOTATION_VALUE")
            [] st = "attlist7" /\ tok = "OR" -> G(r, "attlist6", "ATTLIST_NONE")
            [] st = "attlist8" /\ tok = "POUND_NAME" ->
                 (CASE txt = KW_IMPLIED -> G(r, "attlist1", "IMPLIED_ATTRIBUTE_VALUE")
                    [] txt = KW_REQUIRED -> G(r, "attlist1", "REQUIRED_ATTRIBUTE_VALUE")
                    [] txt = KW_FIXED -> G(r, "attlist9", "ATTLIST_NONE")
                    [] OTHER -> Common(r, tok))
            [] st = "attlist8" /\ tok = "LITERAL" -> G(r, "attlist1", "DEFAULT_ATTRIBUTE_VALUE")
            [] st = "attlist9" /\ tok = "LITERAL" -> G(r, "attlist1", "FIXED_ATTRIBUTE_VALUE")
            [] OTHER -> Common(r, tok))
    [] st \in {"element0", "element1", "element2", "element3", "element4", "element5", "element6", "element7"} ->
         (LET Particle(role) == G([r EXCEPT !.level = IF st = "element2" THEN 1 ELSE @], "element7", role)
              Close(role) == IF r.level = 1 THEN Done([r EXCEPT !.level = 0], "declClose", "ELEMENT_NONE", role)
                             ELSE Stay([r EXCEPT !.level = @ - 1], role)
          IN
          CASE tok = "PROLOG_S" -> Stay(r, "ELEMENT_NONE")
            [] st = "element0" /\ tok \in Names -> G(r, "element1", "ELEMENT_NAME")
            [] st = "element1" /\ tok = "NAME" ->
                 (CASE txt = KW_EMPTY -> Done(r, "declClose", "ELEMENT_NONE", "CONTENT_EMPTY")
                    [] txt = KW_ANY -> Done(r, "declClose", "ELEMENT_NONE", "CONTENT_ANY")
                    [] OTHER -> Common(r, tok))
            [] st = "element1" /\ tok = "OPEN_PAREN" -> G([r EXCEPT !.level = 1], "element2", "GROUP_OPEN")
            [] st = "element2" /\ tok = "POUND_NAME" /\ txt = KW_PCDATA -> G(r, "element3", "CONTENT_PCDATA")
            [] st = "element2" /\ tok = "OPEN_PAREN" -> G([r EXCEPT !.level = 2], "element6", "GROUP_OPEN")
            [] st = "element3" /\ tok = "CLOSE_PAREN" -> Done(r, "declClose", "ELEMENT_NONE", "GROUP_CLOSE")
            [] st \in {"element3", "element5"} /\ tok = "CLOSE_PAREN_ASTERISK" ->
                 Done(r, "declClose", "ELEMENT_NONE", "GROUP_CLOSE_REP")
            [] st \in {"element3", "element5"} /\ tok = "OR" -> G(r, "element4", "ELEMENT_NONE")
            [] st = "element4" /\ tok \in Names -> G(r, "element5", "CONTENT_ELEMENT")
            [] st = "element6" /\ tok = "OPEN_PAREN" -> Stay([r EXCEPT !.level = @ + 1], "GROUP_OPEN")
            [] st \in {"element2", "element6"} /\ tok \in Names -> Particle("CONTENT_ELEMENT")
            [] st \in {"element2", "element6"} /\ tok = "NAME_QUESTION" -> Particle("CONTENT_ELEMENT_OPT")
            [] st \in {"element2", "element6"} /\ tok = "NAME_ASTERISK" -> Particle("CONTENT_ELEMENT_REP")
            [] st \in {"element2", "element6"} /\ tok = "NAME_PLUS" -> Particle("CONTENT_ELEMENT_PLUS")
            [] st = "element7" /\ tok = "CLOSE_PAREN" -> Close("GROUP_CLOSE")
            [] st = "element7" /\ tok = "CLOSE_PAREN_ASTERISK" -> Close("GROUP_CLOSE_REP")
            [] st = "element7" /\ tok = "CLOSE_PAREN_QUESTION" -> Close("GROUP_CLOSE_OPT")
            [] st = "element7" /\ tok = "CLOSE_PAREN_PLUS" -> Close("GROUP_CLOSE_PLUS")
            [] st = "element7" /\ tok = "COMMA" -> G(r, "element6", "GROUP_SEQUENCE")
            [] st = "element7" /\ tok = "OR" -> G(r, "element6", "GROUP_CHOICE")
            [] OTHER -> Common(r, tok))
    [] st = "condSect0" ->
         (CASE tok = "PROLOG_S" -> Stay(r, "NONE")
            [] tok = "NAME" /\ txt = KW_INCLUDE -> G(r, "condSect1", "NONE")
            [] tok = "NAME" /\ txt = KW_IGNORE -> G(r, "condSect2", "NONE")
            [] OTHER -> Common(r, tok))
    [] st = "condSect1" ->
         (CASE tok = "PROLOG_S" -> Stay(r, "NONE")
            [] tok = "OPEN_BRACKET" -> G([r EXCEPT !.incl = @ + 1], "externalSubset1", "NONE")
            [] OTHER -> Common(r, tok))
    [] st = "condSect2" ->
         (CASE tok = "PROLOG_S" -> Stay(r, "NONE")
            [] tok = "OPEN_BRACKET" -> G(r, "externalSubset1", "IGNORE_SECT")
            [] OTHER -> Common(r, tok))
    [] st = "declClose" ->
         (CASE tok = "PROLOG_S" -> Stay(r, r.rn)
            [] tok = "DECL_CLOSE" -> Top(r, r.rn)
            [] OTHER -> Common(r, tok))
    [] OTHER -> Stay(r, "NONE")     \* "error"
===============================================================================
