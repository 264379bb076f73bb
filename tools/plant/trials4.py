from trials3 import *
TRIALS=[
('w-idle-third','E03',[(ELT,"""					transferDPN /= 3
""","""					transferDPN /= 12
""")]),
('w-idle-only','E03',[(ELT,"""dpMean+margin && len(addrs) != 1 {""","""dpMean+margin {""")]),
('w-idle-absent','E03',[(ELT,"""				margin := int(float64(dpMean) * 0.4)
""","""				margin := int(float64(dpMean) * 0.4)
				if _, ok := addrsLens[cfg.LocalAddr]; !ok && len(addrs) > 1 {
					continue
				}
""")]),
]
