ID="C02-keeps-first"; PROP="C02"; KIND="sh"
NEEDS="two requests before the next start"
BREAKS="the newest request is dropped: the next start serves the reason and arguments of an older request"
EDITS=[("crates/aptos-language-server/src/op_queue.rs","        self.op_requested = Some((cause, args));","        // already going to run\n        self.op_requested.get_or_insert((cause, args));")]
DEMO='''
#!/bin/sh
set -e
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable
cat > "$W/main.rs" <<R
#![allow(dead_code)]
#[path = "$(pwd)/crates/aptos-language-server/src/op_queue.rs"]
mod op_queue;
fn main() {
    let mut q: op_queue::OpQueue<u32, u32> = Default::default();
    q.request_op("a".into(), 1);
    assert_eq!(q.should_start_op(), Some(("a".into(), 1)));
    q.request_op("b".into(), 2);
    q.request_op("c".into(), 3);
    assert_eq!(q.should_start_op(), None);
    q.op_completed(7);
    assert_eq!(q.should_start_op(), Some(("c".into(), 3)));
    q.op_completed(8);
    assert_eq!(q.should_start_op(), None);
}
R
rustc --edition 2024 -A warnings -o "$W/demo" "$W/main.rs"
"$W/demo"
'''
