module verif

go 1.23

require github.com/greymass/go-eosio v0.0.0

replace github.com/greymass/go-eosio => /repo
