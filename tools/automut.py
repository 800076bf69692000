#!/usr/bin/env python3
"""Line-level mutants of /repo's sources, for tools/mutate.py: python3 tools/automut.py SEED N > list.py
Operators: comparisons, arithmetic, boolean, constants, early exits, deleted statements, swapped calls."""
import random, re, sys
SRC = "/repo/source/postcard-rpc/src/"
# file -> [(first line pattern or None, properties)]: properties of the region that starts there
REG = {
    "header.rs": [(None, "C05 C06 C19 C01")],
    "lib.rs": [(None, "C24 C06")],
    "uniques.rs": [(None, "C14 C24")],
    "macros.rs": [(None, "C24 C14 C13")],
    "standard_icd.rs": [(None, "C24 C03")],
    "accumulator.rs": [(None, "C17")],
    "host_client/serial.rs": [(None, "C17")],
    "host_client/raw_nusb.rs": [(None, "C23")],
    "host_client/util.rs": [(None, "C10 C11 C02 C22 C12 C09 C01")],
    "host_client/mod.rs": [(None, "C13"), (r"fn new_manual", "C02 C10 C12 C19"), (r"fn get_schema_report", "C13"),
                           (r"pub async fn send_resp<", "C01 C08 C20 C19 C22 C02"), (r"pub async fn publish<", "C12 C08 C19 C02"),
                           (r"pub async fn subscribe_multi<", "C11 C02"), (r"pub async fn subscribe<", "C09 C10 C02"),
                           (r"pub fn close\(", "C02 C10 C11"), (r"impl HostContext", "C01 C02 C22"), (r"pub struct SchemaReport", "C13")],
    "server/mod.rs": [(None, "C04 C03 C13 C21 C18"), (r"pub const fn min_key_needed", "C07")],
    "server/dispatch_macro.rs": [(None, "C03 C07 C04 C13 C24")],
    "server/impls/embassy_usb_v0_3.rs": [(None, "C15 C16 C18")],
    "server/impls/embassy_usb_v0_4.rs": [(None, "C15 C16 C18")],
    "server/impls/test_channels.rs": [(None, "C18 C21")],
}
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r" \+= 1;", " += 2;"), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bcontinue;", "return;"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"\.is_err\(\)", ".is_ok()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\bif !", "if "), (r"\bif (?!let)([a-z_(])", r"if !\1"),
    (r"wrapping_add\(1\)", "wrapping_add(2)"), (r"fetch_add\(1", "fetch_add(0"), (r"\b64\b", "63"), (r"\b0\b", "1"), (r"\b1\b", "0"),
    (r"\bb ", "a "), (r"\bReq\b", "Resp"), (r"Request\b", "Response"), (r"Response\b", "Request"), (r"REQ_KEY\b", "RESP_KEY"), (r"RESP_KEY\b", "REQ_KEY"),
    (r"topics_in\b", "topics_out"), (r"topics_out\b", "topics_in"), (r"Key4\b", "Key2"), (r"Key2\b", "Key1"), (r"Key8\b", "Key4"),
    (r"Seq2\b", "Seq4"), (r"Seq1\b", "Seq2"), (r"\?;", ".ok();"), (r"Err\(_\)", "Ok(_)"), (r"::Timeout", "::Other"), (r"::ConnectionClosed", "::Other"),
    (r"::Other\b", "::ConnectionClosed"), (r"key_", "resp_key_"), (r"\.await\?", ".await.ok()"), (r"u16\b", "u8"), (r"\.rev\(\)", ""),
    (r"DeserFailed", "SerFailed"), (r"SerFailed\b", "DeserFailed"), (r"UnknownKey", "KeyTooSmall"), (r"ToServer", "ToClient"), (r"ToClient", "ToServer"),
    (r"from_be_bytes", "from_le_bytes"), (r"from_le_bytes", "from_be_bytes"), (r"to_le_bytes", "to_be_bytes"), (r"pop_front", "pop_back"), (r"push_back", "push_front"),
    (r"^(\s*)(?!let |return|pub |use |fn |const |impl |match |if |for |while |loop|\}|\{|//|#|\.|debug|trace|warn|error|tracing|\$|async|break|continue|where|type |static|struct|enum|mod )([a-z_*][^;]*;)\s*$", r"\1"),
]
def main():
    rnd = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); only = sys.argv[3:]
    al = []
    for f, regs in REG.items():
        if only and f not in only: continue
        lines = open(SRC + f).read().split("\n")
        props = regs[0][1]; rest = regs[1:]; per = []; depth = 0
        for i, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\(test\)\]", l) and re.match(r"\s*(pub )?mod ", (lines[i + 1] if i + 1 < len(lines) else "")): break
            for pat, p in rest:
                if re.search(pat, l): props = p
            s = l.strip()
            if s.startswith(("//", "#", "use ", "warn!", "debug!", "trace!", "tracing::", "error!", "info!", "pub mod", "///", "#![")) or not s: continue
            if re.search(r"(warn|debug|trace|error|info)!\(", l): continue
            code = l.split(" //")[0]
            for o, r in OPS:
                for m in re.finditer(o, code):
                    new = code[:m.start()] + m.expand(r) + code[m.end():] + l[len(code):]
                    if new != l: per.append((f, i, l, new, props))
        # at most a share per file
        rnd.shuffle(per); al.append((f, per))
    out = []; k = 0
    while len(out) < n and any(p for _, p in al):
        f, per = al[k % len(al)]; k += 1
        if not per: continue
        c = per.pop(); out.append(c)
    print("MUTANTS = [")
    for j, (f, i, l, new, props) in enumerate(out):
        print(" (%r, %r, [(%r, %d, %r, %r)])," % ("a%s-%d-%s:%d" % (sys.argv[1], j, f.split("/")[-1][:-3], i + 1), props, f, i, l, new))
    print("]")
main()
