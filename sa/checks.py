"""What decides each property: level, explanation for the evidence file, and the absolute rules run after the contract phase."""
import os

import core
import inline
import project
import rules_api
import rules_flow
import rules_loops
import rules_names
import rules_state
import rules_tables
import scopes

CONTRACT = ("Value-flow summaries (result, attribute writes, container contents, emitted bytes, rejection conditions, external calls) are derived "
            "from the current source of every planned function by abstract interpretation over symbolic terms, with private helpers inlined, "
            "normalised, and compared with the confirmed summaries in sa/spec; a fact is a violation only when the two terms provably differ "
            "(a feasible leaf with different constants, sources, widths, conditions or calls), undecided when they cannot be related.")
META, RULES = {}, {}
# Rules over the syntax tree: run after helpers and constants the confirmed tree does not have were substituted back (inline.py).
SYNTACTIC = {rules_flow.rule_release, rules_flow.rule_injection, rules_flow.rule_handlers, rules_flow.rule_session, rules_state.rule_b04, rules_loops.rule_b07}


def run_rules(chk, p, spec, prop, tier):
    norm = None
    for rule in RULES.get(prop, []):
        try:
            if rule in SYNTACTIC:
                if norm is None:
                    norm = inline.normalized(p, spec)
                q, taint = norm
                sub = core.Check(prop, tier)
                rule(sub, q, tier)
                for key, (where, text) in sub.findings.items():
                    fn = key.split("|", 1)[1].split("#")[0]
                    if fn in taint:
                        chk.undec(key, "involves a new helper that could not be substituted: " + text)
                    else:
                        chk.findings.setdefault(key, (where, text))
                for k, n in sub.counts.items():
                    chk.ok(k, n)
                chk.undecided += sub.undecided
                chk.samples += sub.samples
                chk.broken += sub.broken
            else:
                rule(chk, p, tier)
        except project.Broken as e:
            chk.undec(rule.__name__, str(e))
        except (KeyError, AttributeError, TypeError, IndexError, RecursionError, ValueError, AssertionError) as e:
            if os.environ.get("SA_DEBUG"):
                raise
            chk.undec(rule.__name__, f"analyser: {type(e).__name__} {e}")


def meta(id, rules=(), extra="", technique=None, assumptions=None, contract=True):
    META[id] = {"level": "other", "explanation": ((CONTRACT + " ") if contract else "") + extra,
                "technique": technique or "abstract interpretation to value-flow summaries compared with confirmed contracts",
                "assumptions": assumptions or []}
    RULES[id] = list(rules)


VF = "abstract interpretation to value-flow summaries compared with confirmed contracts"
for _i in scopes.SCOPES:
    meta(_i)
meta("G02", [rules_names.rule_g02], "Every name, attribute, import, call signature, format string and struct format of the package is resolved against the "
     "definitions it refers to (definite-binding analysis of locals, closed-class attribute tables, stdlib signatures).",
     "name, attribute, signature and format resolution over the syntax tree", contract=False)
meta("U02", [rules_flow.rule_release], "Every acquisition of a file, stream, socket, lock or temporary global change must be released on every path, the "
     "exceptional ones included (with-statement, try/finally, or an owner that closes it).", "path-sensitive typestate over the syntax tree", contract=False)
meta("U03", [rules_flow.rule_injection], "Every sink that executes text (shell, eval, SQL, XML) is traced back to the pieces of its argument, which must be "
     "constants, quoted or escaped.", "source-to-sink dataflow over the syntax tree; " + VF)
meta("U04", [rules_flow.rule_handlers], "Every except handler must raise, report or convert; every status code of a launched command must be looked at.",
     "handler and result-use analysis over the syntax tree; " + VF)
meta("D01", [rules_flow.rule_session], "Every use of the lent database session is enumerated: the tables only add and flush, the owner commits once or rolls back.",
     "typestate of the session over the call graph; " + VF)
meta("B04", [rules_state.rule_b04], "For every decode entry point the value of each attribute it leaves is derived as a term over the input, the constructor configuration "
     "and the earlier object; a term that still depends on earlier mutable state, and an attribute another operation changes but decoding never sets, are violations.",
     "may-depend analysis of the final object state (abstract interpretation to value-flow terms)", contract=False)
meta("B08", [rules_state.rule_b08], "The interprocedural effect analysis derives every location each observer (encoder, printer, comparison, getter, property) may write; "
     "a definite write to the receiver, an argument or a shared table is a violation, except derived size, count and offset fields recomputed from the content alone.",
     "interprocedural effect (purity) analysis", contract=False)
meta("B09", [rules_state.rule_b09], "Every default argument, class attribute and module table is classified as mutable or not and traced to the places that change, store or "
     "hand it out.", "escape and effect analysis of shared mutable objects", contract=False)
meta("B07", [rules_loops.rule_b07], "For every while loop each path through the body back to the head is enumerated with the places it changes: a path that changes nothing "
     "the loop's tests and exits depend on, advances by an amount nothing keeps from being zero, moves away from the bound, walks past the root of the directory tree, "
     "a for loop that grows what it iterates over, or a call that repeats its own arguments is a violation; the include stack that cuts cyclic includes is decided by contract.",
     "progress (ranking) analysis of every loop path; " + VF)
meta("G01", [rules_api.rule_g01], "For every class the equality, hash and ordering are turned into terms: the equality must be symmetric and reflexive and look at the other operand's "
     "type before its fields; on every way two objects can be equal the two hashes must reduce to the same term; an ordering must be strict over one key; and library "
     "objects compared with == must define it.", "term rewriting of equality, hash and ordering summaries; " + VF)
meta("G03", [rules_api.rule_g03], "Every deprecated entry point of the confirmed list is evaluated with its replacement kept opaque: the replacement must be reached on every path with each of "
     "the caller's arguments in its own parameter, equal defaults, and its result handed back; it must warn; and no other library code may reach a deprecated name.",
     "forwarding analysis over value-flow summaries and call graph; " + VF)
meta("T01", [rules_tables.rule_t01], "Every constant table is evaluated from the source (constant folding, no code runs) and compared entry by entry with the values of the specifications in "
     "sa/spec/tables.json; tables that are inverse to each other, names and constants that must agree, and families of codes that must be distinct or single bits are compared with each other.",
     "constant evaluation of tables against specified values; " + VF)
