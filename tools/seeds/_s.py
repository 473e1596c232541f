DEPS = 'jester_sharing = { path = "@REPO@/jester_sharing" }\njester_maths = { path = "@REPO@/jester_maths" }\nrand = "0.5.6"\nnum = "0.2.0"\nfutures-preview = { version = "0.3.0-alpha.19", features = ["async-await"] }'
PRE = open('/verif/tools/seeds/_s.rs').read()
SH = 'jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs'
MU = 'jester_sharing/src/multiplication/beaver_randomization_multiplication.rs'
IN = 'jester_sharing/src/inversion/unbounded_inversion.rs'
OR = 'jester_sharing/src/shared_or_function/joint_unbounded_or.rs'
RN = 'jester_sharing/src/random_number_generation/sum_random_number_generation.rs'
