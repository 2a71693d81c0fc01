// vhrace runs schedules of package race; it is built with -race.
package main

import "verif/race"

func main() { race.Main() }
