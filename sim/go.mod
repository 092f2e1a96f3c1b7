module powsim

go 1.17

require golang.org/x/crypto v0.0.0-20220722155217-630584e8d5aa

require golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f

require github.com/dchest/blake2b v1.0.0
