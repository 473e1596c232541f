DEPS = 'jester_double_ratchet = { path = "@REPO@/jester_double_ratchet" }\njester_encryption = { path = "@REPO@/jester_encryption" }\nrand = "0.5.6"'
PRE = open('/verif/tools/seeds/_d.rs').read()
F = 'jester_double_ratchet/src/lib.rs'
