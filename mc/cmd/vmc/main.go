// vmc explores the instrumented proxy under the controlled runtime.
package main

import "verif/explore"

func main() { explore.Main() }
