----------------------------- MODULE ConfNames -----------------------------
(* Conformance of the texts of name types, language sets and errors. *)
EXTENDS Conform, Names

NamExpected(r) ==
  CASE r.op = "nt" ->
         [from |-> NameTypeOf(r.s), file |-> NameTypeOfFile(r.s), json |-> NameTypeOf(r.s),
          bad |-> IF NameTypeOf(r.s) = <<>> THEN r.s ELSE <<>>,
          badfile |-> IF NameTypeOfFile(r.s) = <<>> THEN r.s ELSE <<>>, back |-> TRUE]
    [] r.op = "lsd" -> [text |-> LanguageSetText(LOfJson(r.a)), back |-> TRUE]
    [] OTHER -> [error |-> "text", file |-> r.out.file, line |-> r.out.line, content |-> r.out.content]
NamAllowed(r) ==
  CASE r.op \in {"nt", "lsd"} -> r.out = NamExpected(r)
    [] r.op \in {"errd", "errb"} ->
         r.out.k = "parse" => r.out.back /\ IsErrorText(r.out.msg, r.out.file, r.out.line, r.out.content)
=============================================================================
