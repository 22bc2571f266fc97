// vh runs the checks: "vh ID" supervises, "vh child ..." runs one shard.
package main

import "verif/h"

func main() { h.Main() }
