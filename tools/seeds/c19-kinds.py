ID="C19-kinds-exit"; PROP="C19"; KIND="server"
NEEDS="`--kinds` without `error` on files which have errors"
BREAKS="errors which the option leaves out still make the command fail"
EDITS=[("crates/aptos-language-server/src/cli/diagnostics.rs",'''    if let Some(sevs) = &cmd_config.kinds {
        diagnostics = diagnostics
            .into_iter()
            .filter(|it| sevs.contains(&it.severity))
            .collect();
    }
    diagnostics
''','''    if let (Some(sevs), true) = (&cmd_config.kinds, cmd_config.allowed_fix_codes.has_codes_to_apply()) {
        diagnostics.retain(|it| sevs.contains(&it.severity));
    }
    diagnostics
'''),("crates/aptos-language-server/src/cli/diagnostics.rs",'''            print_diagnostic(&file_text, &file_path, diagnostic, false);
        }
        found_error''','''            if cmd_config.kinds.as_ref().is_none_or(|it| it.contains(&diagnostic.severity)) {
                print_diagnostic(&file_text, &file_path, diagnostic, false);
            }
        }
        found_error''')]
DEMO='''
import os, subprocess, sys
bin, w = sys.argv[1:3]
os.makedirs(w + "/p/sources")
open(w + "/p/Move.toml", "w").write('[package]\\nname = "P"\\nversion = "0.0.0"\\n')
open(w + "/p/sources/m.move", "w").write("module 0x1::m {\\n    fun f(): u8 { let x = 1; true }\\n}\\n")
def run(*args):
    r = subprocess.run([bin, "diagnostics", w + "/p", *args], capture_output=True, text=True)
    return r.returncode, "type-error" in r.stderr, "unused-variable" in r.stderr
assert run() == (1, True, True), run()
assert run("--kinds", "error") == (1, True, False), run("--kinds", "error")
assert run("--kinds", "warn") == (0, False, True), run("--kinds", "warn")
'''
