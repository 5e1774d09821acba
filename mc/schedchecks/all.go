package schedchecks

import "gofremc/kit"

var all = map[string]func(*kit.Run){}
