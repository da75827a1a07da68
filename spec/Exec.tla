---------------------------------- MODULE Exec ----------------------------------
(* Execution of GraphQL operations over resolvers: what is answered, what fails where, and which upstream calls are made.
   A type reference: <<"n", name, nonnull>> or <<"l", reference, nonnull>>.
   A field of a type: [n, t, args, r]; an argument [n, t, d] with d its default (<<>> or <<value>>).
   A resolver r: <<"none">> (the value is the parent's), <<"const", value>>, <<"echo">> (the arguments as they arrive),
     <<"call", upstream, key parts>> with parts <<"args", name>> or <<"value", field>>.
   A selection: a sequence of [k |-> "f", out, n, args, cond, sel] and [k |-> "frag", on, cond, sel] ("" for no condition).
   A condition: [skip, inc], each <<>> or one <<"lit", boolean>> or <<"var", name>>. An argument's value: <<"lit", value>> or <<"var", name>>. *)
EXTENDS JsonVal
CONSTANTS Fields(_),      \* of an object type or interface
          Possible(_),    \* the object types of an interface or union, {} for other types
          EnumOf(_),      \* the values of an enumeration, {} for other types
          Fetch(_, _)     \* what an upstream answers for a key: <<value>>, <<>> when it fails

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
RECURSIVE Base(_)
Base(t) == IF t[1] = "n" THEN t[2] ELSE Base(t[2])
Bool(x) == <<"b", IF x THEN "true" ELSE "false">>

\* ---- variables: a sequence of <<name, value>>; those of a request complete those given by the operation as defaults
Lookup(vs, n) == Field(vs, n)
Effective(given, defaults) == given \o SelectSeq(defaults, LAMBDA d : Lookup(given, d[1]) = <<>>)

\* ---- which fields are selected
Holds(b, vs) == IF b[1] = "lit" THEN b[2] ELSE Lookup(vs, b[2]) = <<Bool(TRUE)>>
Active(cond, vs) == /\ cond.skip # <<>> => ~Holds(cond.skip[1], vs)
                    /\ cond.inc # <<>> => Holds(cond.inc[1], vs)
Applies(on, type) == on = "" \/ on = type \/ type \in Possible(on)
RECURSIVE Merge1(_, _), Gathered(_, _), Collect(_, _, _)
Merge1(fs, f) == IF fs = <<>> THEN <<f>> ELSE IF fs[1].out = f.out THEN <<[fs[1] EXCEPT !.sel = @ \o f.sel]>> \o Tail(fs) ELSE <<fs[1]>> \o Merge1(Tail(fs), f)
Gathered(fs, gs) == IF gs = <<>> THEN fs ELSE Gathered(Merge1(fs, gs[1]), Tail(gs))
Collect(sel, type, vs) ==
  IF sel = <<>> THEN <<>>
  ELSE LET x == sel[1]
           here == IF ~Active(x.cond, vs) THEN <<>>
                   ELSE IF x.k = "f" THEN <<[out |-> x.out, n |-> x.n, args |-> x.args, sel |-> x.sel]>>
                   ELSE IF Applies(x.on, type) THEN Collect(x.sel, type, vs) ELSE <<>>
       IN Gathered(here, Collect(Tail(sel), type, vs))

\* ---- arguments: <<name, value>> of those that have a value
ArgValue(arg, given, vs) ==
  LET g == Lookup(given, arg.n)
      v == IF g = <<>> THEN <<>> ELSE IF g[1][1] = "lit" THEN <<g[1][2]>> ELSE Lookup(vs, g[1][2])
  IN IF v = <<>> THEN arg.d ELSE v
Coerced(args, given, vs) == Flat([j \in DOMAIN args |-> LET v == ArgValue(args[j], given, vs) IN IF v = <<>> THEN <<>> ELSE << <<args[j].n, v[1]>> >>])
\* an argument that may not be null is null or missing, or given by a variable that is (the operation declares its variables with the argument's type)
Missing(given, vs) == given # <<>> /\ given[1][1] = "var" /\ Lookup(vs, given[1][2]) = <<>>
BadArgs(args, given, vs) == \E j \in DOMAIN args : args[j].t[3] /\ (Missing(Lookup(given, args[j].n), vs) \/ ArgValue(args[j], given, vs) \in {<<>>, <<Null>>})

\* ---- execution: [v, errs, calls]
Res(v, errs, calls) == [v |-> v, errs |-> errs, calls |-> calls]
KeyPart(p, parent, args) == LET v == IF p[1] = "args" THEN Field(args, p[2]) ELSE Get(parent, p[2]) IN IF v = <<>> \/ v = <<Null>> THEN "" ELSE v[1][2]
Key(parts, parent, args) == [j \in DOMAIN parts |-> KeyPart(parts[j], parent, args)]
RuntimeType(name, v) == IF Possible(name) = {} THEN name ELSE Get(v, "type")[1][2]
Builtin == {"Int", "Float", "String", "ID", "Boolean"}
Scalars == Builtin \cup {"JSON", "Email"}
\* values of the built-in scalars are passed on as they are; other scalars and enumerations are checked
LeafOk(name, v) == CASE name \in Builtin \cup {"JSON"} -> TRUE [] name = "Email" -> v = <<"s", "a@b.co">> [] OTHER -> v[1] = "s" /\ v[2] \in EnumOf(name)
IsLeaf(name) == name \in Scalars \/ EnumOf(name) # {}
\* an object all of whose fields have a resolver, in themselves or below, needs no value of its own
RECURSIVE Namespace(_, _)
Namespace(t, seen) == /\ ~IsLeaf(t) /\ Possible(t) = {}
                      /\ t \in seen \/ \A j \in DOMAIN Fields(t) : Fields(t)[j].r[1] # "none" \/ Namespace(Base(Fields(t)[j].t), seen \cup {t})
FieldDef(type, n) == LET fs == Fields(type) IN fs[CHOOSE j \in DOMAIN fs : fs[j].n = n]
RECURSIVE ExecSel(_, _, _, _, _), ExecField(_, _, _, _, _), Complete(_, _, _, _, _, _), Absent(_, _)
ExecSel(sel, type, parent, path, vs) ==
  LET fs == Collect(sel, type, vs)
      rs == TLCEval([j \in DOMAIN fs |-> ExecField(fs[j], type, parent, path, vs)])
  IN Res(<<"o", [j \in DOMAIN fs |-> <<fs[j].out, rs[j].v>>]>>, Flat([j \in DOMAIN fs |-> rs[j].errs]), Flat([j \in DOMAIN fs |-> rs[j].calls]))
ExecField(f, type, parent, path, vs) ==
  IF f.n = "__typename" THEN Res(<<"s", type>>, <<>>, <<>>)
  ELSE LET fd == FieldDef(type, f.n)
           here == Append(path, f.out)
           args == Coerced(fd.args, f.args, vs)
           own == Get(parent, f.n)
           call == <<fd.r[2], Key(fd.r[3], parent, args)>>
           raw == CASE fd.r[1] = "none" -> (IF Namespace(Base(fd.t), {}) THEN << <<"o", <<>>>> >> ELSE IF own = <<>> THEN <<Null>> ELSE own)
                    [] fd.r[1] = "const" -> <<fd.r[2]>>
                    [] fd.r[1] = "echo" -> << <<"o", args>> >>
                    [] OTHER -> Fetch(call[1], call[2])
           calls == IF fd.r[1] = "call" THEN <<call>> ELSE <<>>
           r == IF raw = <<>> THEN Res(Null, <<here>>, <<>>) ELSE Complete(fd.t, raw[1], f.sel, here, vs, fd.r[1] # "none")
       IN Res(r.v, r.errs, calls \o r.calls)
\* nothing where something may be expected; a value of another kind (list or not, object or not) counts as nothing
Absent(t, path) == Res(Null, IF t[3] THEN <<path>> ELSE <<>>, <<>>)
\* own: the value was produced by a resolver of the field itself
Complete(t, v, sel, path, vs, own) ==
  IF v = Null THEN Absent(t, path)
  ELSE IF t[1] = "l" THEN
    IF ~IsArr(v) THEN Absent(t, path)
    ELSE LET rs == TLCEval([j \in DOMAIN v[2] |-> Complete(t[2], v[2][j], sel, Append(path, j - 1), vs, FALSE)])
         IN Res(<<"a", [j \in DOMAIN rs |-> rs[j].v]>>, Flat([j \in DOMAIN rs |-> rs[j].errs]), Flat([j \in DOMAIN rs |-> rs[j].calls]))
  ELSE IF IsLeaf(t[2]) THEN IF IsArr(v) /\ (EnumOf(t[2]) # {} \/ (own /\ t[2] \in Builtin)) THEN Absent(t, path)
                            ELSE IF LeafOk(t[2], v) THEN Res(IF t[2] = "JSON" THEN <<"j", v>> ELSE v, <<>>, <<>>) ELSE Res(Null, <<path>>, <<>>)
  ELSE IF ~IsObj(v) THEN Absent(t, path)
  ELSE ExecSel(sel, RuntimeType(t[2], v), v, path, vs)

\* a request against the root type: nothing is answered besides the failures when there are any
Run(sel, root, vs) == ExecSel(sel, root, <<"o", <<>>>>, <<>>, vs)
\* every field's arguments are in order before anything is executed
RECURSIVE ArgsOk(_, _, _)
ArgsOk(sel, type, vs) == \A j \in DOMAIN sel :
  LET x == sel[j] IN
  ~Active(x.cond, vs) \/ IF x.k = "frag" THEN ArgsOk(x.sel, IF x.on = "" THEN type ELSE x.on, vs)
                         ELSE x.n = "__typename" \/ (LET fd == FieldDef(type, x.n) IN /\ ~BadArgs(fd.args, x.args, vs) /\ (IsLeaf(Base(fd.t)) \/ ArgsOk(x.sel, Base(fd.t), vs)))
=============================================================================
