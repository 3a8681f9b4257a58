// Code made once by a search; pairs of texts that hash to the same.

package main

var colliding = [][3]string{
	{"", "kyzcxng", "rsdu5yt"},                          // crc32
	{"", "fzshybd", "it1g3oi"},                          // crc32
	{"urn:ex:", "3o47tco", "95iviz7"},                   // crc32
	{"urn:ex:", "9fj4zjc", "6tgg1sn"},                   // crc32
	{"ex:", "hnwfrfj", "freys6u"},                       // crc32
	{"ex:", "tph5aiu", "hc4lggc"},                       // crc32
	{"ex", "gyl71kw", "7top0p7"},                        // crc32
	{"ex", "j3ilet2", "ojxhav5"},                        // crc32
	{"urn:", "cdv7rwg", "40pgw09"},                      // crc32
	{"urn:", "7vhfap8", "kv0tof8"},                      // crc32
	{"api:", "5c2geb3", "px5utar"},                      // crc32
	{"api:", "k8es8b2", "np5anbg"},                      // crc32
	{"urn:ietf:params:scim:api:", "guzg0ps", "mbfhmeo"}, // crc32
	{"urn:ietf:params:scim:api:", "9zykyil", "f4ymrse"}, // crc32
	{"ietf:params:scim:api:", "inw5bfm", "6qente4"},     // crc32
	{"ietf:params:scim:api:", "t7n2qpr", "z73qq4m"},     // crc32
	{"URN:ex:", "hqa1pcu", "9raug03"},                   // crc32
	{"URN:ex:", "76zn32k", "dx3882d"},                   // crc32
	{"", "d9qpsd7", "582bjkd"},                          // crc32c
	{"", "b64g5aa", "78qzehm"},                          // crc32c
	{"urn:ex:", "8qx48za", "e72to2i"},                   // crc32c
	{"urn:ex:", "e9zpna5", "3xn7kfh"},                   // crc32c
	{"ex:", "vz20gop", "0aef5bu"},                       // crc32c
	{"ex:", "qaf95t4", "06merfu"},                       // crc32c
	{"ex", "vi3cpf3", "0m3qg8k"},                        // crc32c
	{"ex", "70tmdh6", "mehg3v6"},                        // crc32c
	{"urn:", "cwyqdsn", "vhngwf9"},                      // crc32c
	{"urn:", "q9nu6t7", "4mhy1wc"},                      // crc32c
	{"api:", "gk0wkpk", "i6m38sl"},                      // crc32c
	{"api:", "sdrrgpk", "opl2h4p"},                      // crc32c
	{"urn:ietf:params:scim:api:", "lqg9efh", "s9t8sh5"}, // crc32c
	{"urn:ietf:params:scim:api:", "e7pw4id", "1ioz347"}, // crc32c
	{"ietf:params:scim:api:", "d0wmclc", "1dgl92q"},     // crc32c
	{"ietf:params:scim:api:", "dc1mind", "blklgah"},     // crc32c
	{"URN:ex:", "1yuu3ap", "awf7hs0"},                   // crc32c
	{"URN:ex:", "rf03t48", "6tohw9v"},                   // crc32c
	{"", "jqz206d", "107sybw"},                          // crc32k
	{"", "uj11h0e", "2a1u3e5"},                          // crc32k
	{"urn:ex:", "vlsiu7i", "xuy8ail"},                   // crc32k
	{"urn:ex:", "rih8l8z", "il9dfv5"},                   // crc32k
	{"ex:", "vjv5o3e", "j5q5dpl"},                       // crc32k
	{"ex:", "e0b0yrx", "be47kl3"},                       // crc32k
	{"ex", "nu0ni72", "7hk0eh2"},                        // crc32k
	{"ex", "t48en2h", "c7afp11"},                        // crc32k
	{"urn:", "21thpl8", "1nyk8ei"},                      // crc32k
	{"urn:", "43op95l", "4p8umht"},                      // crc32k
	{"api:", "sftyvrr", "82a9gfk"},                      // crc32k
	{"api:", "nve11wm", "k31c0i8"},                      // crc32k
	{"urn:ietf:params:scim:api:", "pv8z250", "dfx0245"}, // crc32k
	{"urn:ietf:params:scim:api:", "j9eoo2r", "npinaxp"}, // crc32k
	{"ietf:params:scim:api:", "eqkagco", "gai4tcq"},     // crc32k
	{"ietf:params:scim:api:", "x2cd5j8", "23p8dc1"},     // crc32k
	{"URN:ex:", "83yjeeo", "1jo9zgk"},                   // crc32k
	{"URN:ex:", "454r7ko", "xmjnjmb"},                   // crc32k
	{"", "tgx2g2y", "tgx2jk4"},                          // crc64iso
	{"", "rsudhzu", "rsu4j8e"},                          // crc64iso
	{"urn:ex:", "35n3zll", "35nszu5"},                   // crc64iso
	{"urn:ex:", "argfcxo", "arg6bmo"},                   // crc64iso
	{"ex:", "x8mxbwj", "x8m8ccs"},                       // crc64iso
	{"ex:", "z0tdvuy", "z0t4rjo"},                       // crc64iso
	{"ex", "k3o0l5x", "k3o0mjg"},                        // crc64iso
	{"ex", "nf0luan", "nf0ly0q"},                        // crc64iso
	{"urn:", "7cvy2bg", "7cvioi7"},                      // crc64iso
	{"urn:", "i3brqzk", "i3brte2"},                      // crc64iso
	{"api:", "lb8ai1v", "lb8q99f"},                      // crc64iso
	{"api:", "6e6z16u", "6e6j20p"},                      // crc64iso
	{"urn:ietf:params:scim:api:", "pvx4u7h", "pvxt421"}, // crc64iso
	{"urn:ietf:params:scim:api:", "xulris0", "xulb677"}, // crc64iso
	{"ietf:params:scim:api:", "bj1rcea", "bj1rolz"},     // crc64iso
	{"ietf:params:scim:api:", "t82hx4y", "t828ve2"},     // crc64iso
	{"URN:ex:", "4oah7cg", "4oahcs9"},                   // crc64iso
	{"URN:ex:", "p3euisg", "p3eebk1"},                   // crc64iso
	{"", "xitfita", "tpcxpia"},                          // adler32
	{"", "8txdh3n", "u1cxe2y"},                          // adler32
	{"urn:ex:", "kdmauec", "xu7qrpc"},                   // adler32
	{"urn:ex:", "y1pbizp", "ih6xfsw"},                   // adler32
	{"ex:", "wie5gy7", "rxd3x4d"},                       // adler32
	{"ex:", "rpzar55", "wbuvq40"},                       // adler32
	{"ex", "xrfp1oj", "vzdg0xg"},                        // adler32
	{"ex", "fsjqpde", "zhahexe"},                        // adler32
	{"urn:", "mjw4tvu", "xs4ucrx"},                      // adler32
	{"urn:", "06xuetu", "53uokws"},                      // adler32
	{"api:", "u5j77hy", "v01xj6t"},                      // adler32
	{"api:", "an8x6by", "is80wof"},                      // adler32
	{"urn:ietf:params:scim:api:", "l7kdgz0", "btb3l2z"}, // adler32
	{"urn:ietf:params:scim:api:", "q6xtbmi", "u9fuueh"}, // adler32
	{"ietf:params:scim:api:", "p35w2cx", "z00f8qs"},     // adler32
	{"ietf:params:scim:api:", "gyubjnn", "qlczhwd"},     // adler32
	{"URN:ex:", "sbphu2n", "cxkhw4i"},                   // adler32
	{"URN:ex:", "gjo05ay", "c1dwwi0"},                   // adler32
	{"", "0w8ccfw", "xmt6rcx"},                          // fnv32
	{"", "w2f4ue9", "u0lgar3"},                          // fnv32
	{"urn:ex:", "ucz7nwu", "8fvoajw"},                   // fnv32
	{"urn:ex:", "6utekl1", "9u6jwr7"},                   // fnv32
	{"ex:", "0hadzkg", "s6ywg9l"},                       // fnv32
	{"ex:", "q14ebnv", "ao7f6gi"},                       // fnv32
	{"ex", "o2ixwwb", "ggedjt1"},                        // fnv32
	{"ex", "i9fpf4b", "imfycdl"},                        // fnv32
	{"urn:", "jzmp995", "c3bzodw"},                      // fnv32
	{"urn:", "otp0dop", "sey5tq3"},                      // fnv32
	{"api:", "swx4zty", "cv0dab7"},                      // fnv32
	{"api:", "fhbcxiv", "yhx40g0"},                      // fnv32
	{"urn:ietf:params:scim:api:", "g7ysu5n", "f7t1kbs"}, // fnv32
	{"urn:ietf:params:scim:api:", "zzlu26o", "ki01gb2"}, // fnv32
	{"ietf:params:scim:api:", "kqhgo4a", "8wyaqgl"},     // fnv32
	{"ietf:params:scim:api:", "mopf23n", "kznzie8"},     // fnv32
	{"URN:ex:", "y0m5wia", "v0yly2v"},                   // fnv32
	{"URN:ex:", "5eerkil", "umnmzsa"},                   // fnv32
	{"", "ykgwx53", "ej3tf1s"},                          // fnv32a
	{"", "p7n8d9z", "1iyud4z"},                          // fnv32a
	{"urn:ex:", "mkofwtv", "fnav2qf"},                   // fnv32a
	{"urn:ex:", "1vvhpzo", "b7iaqou"},                   // fnv32a
	{"ex:", "4m7yw7o", "ms22697"},                       // fnv32a
	{"ex:", "kotvpbl", "vfcvhv5"},                       // fnv32a
	{"ex", "1d80pqj", "76we3lb"},                        // fnv32a
	{"ex", "e8scvvg", "ci57nf0"},                        // fnv32a
	{"urn:", "7owt13t", "1vfro2k"},                      // fnv32a
	{"urn:", "g83bcjs", "t2ecnfj"},                      // fnv32a
	{"api:", "sz4lwit", "cughyuh"},                      // fnv32a
	{"api:", "w0oh68s", "gwkr2tt"},                      // fnv32a
	{"urn:ietf:params:scim:api:", "0pzbt7h", "q7jfy39"}, // fnv32a
	{"urn:ietf:params:scim:api:", "1a4b536", "nmx65lt"}, // fnv32a
	{"ietf:params:scim:api:", "foadlpy", "k8pc250"},     // fnv32a
	{"ietf:params:scim:api:", "u08w5zs", "llgc239"},     // fnv32a
	{"URN:ex:", "6unp39d", "di99oh1"},                   // fnv32a
	{"URN:ex:", "t481ojr", "dkmos2h"},                   // fnv32a
	{"", "kfbqdau", "obk7lcp"},                          // fnv64
	{"", "3wa3pn7", "bv5tu6i"},                          // fnv64
	{"urn:ex:", "bgka8ha", "kokskxu"},                   // fnv64
	{"urn:ex:", "0lqlxyo", "4gexh7l"},                   // fnv64
	{"ex:", "u3qecxz", "3o232dx"},                       // fnv64
	{"ex:", "908j9mx", "jclhn5o"},                       // fnv64
	{"ex", "1b4j1tq", "dc7v2eh"},                        // fnv64
	{"ex", "u10usf5", "7yb0mea"},                        // fnv64
	{"urn:", "ljfcxe3", "r2jug3r"},                      // fnv64
	{"urn:", "ncwsbub", "r12fywg"},                      // fnv64
	{"api:", "pyclko0", "f18dwwe"},                      // fnv64
	{"api:", "cn1s9xx", "42s8tsp"},                      // fnv64
	{"urn:ietf:params:scim:api:", "leba166", "fidim4t"}, // fnv64
	{"urn:ietf:params:scim:api:", "u5tpjx2", "dj608gk"}, // fnv64
	{"ietf:params:scim:api:", "hp9pgwr", "k7ae4gt"},     // fnv64
	{"ietf:params:scim:api:", "84tquxj", "y7f17oo"},     // fnv64
	{"URN:ex:", "kjd6zwa", "dp57rps"},                   // fnv64
	{"URN:ex:", "qxnm1lb", "zwvk35o"},                   // fnv64
	{"", "zgtpxk5", "9q554nq"},                          // fnv64a
	{"", "6t1634w", "bd17nif"},                          // fnv64a
	{"urn:ex:", "3kbljyv", "ii6rxd9"},                   // fnv64a
	{"urn:ex:", "3svalfc", "mcvx4o5"},                   // fnv64a
	{"ex:", "uu9c5a3", "02z0gi7"},                       // fnv64a
	{"ex:", "naiz94f", "308nulu"},                       // fnv64a
	{"ex", "ghg8o4n", "m1jydii"},                        // fnv64a
	{"ex", "b5xy5yx", "71m5xxr"},                        // fnv64a
	{"urn:", "h85lx28", "cn3c94q"},                      // fnv64a
	{"urn:", "0jki1mq", "nt24dqb"},                      // fnv64a
	{"api:", "xthc38l", "yidqutr"},                      // fnv64a
	{"api:", "70ilzqd", "fosjnzy"},                      // fnv64a
	{"urn:ietf:params:scim:api:", "ezczp1n", "kk0xhvw"}, // fnv64a
	{"urn:ietf:params:scim:api:", "5tgod5o", "rdtio09"}, // fnv64a
	{"ietf:params:scim:api:", "f7mw7yg", "r7oz22j"},     // fnv64a
	{"ietf:params:scim:api:", "leibog8", "jnrcfbi"},     // fnv64a
	{"URN:ex:", "o85qkwc", "p32bxr7"},                   // fnv64a
	{"URN:ex:", "si2qv4u", "vstgw4w"},                   // fnv64a
	{"", "fd3x09v", "fd58ly8"},                          // 31
	{"", "k9iciq7", "k9ick37"},                          // 31
	{"urn:ex:", "z4phv47", "xt2j847"},                   // 31
	{"urn:ex:", "dy5xfp9", "shuvbyd"},                   // 31
	{"ex:", "m3trq4u", "ks84q4u"},                       // 31
	{"ex:", "l9s4jho", "72joy8b"},                       // 31
	{"ex", "pxka3zd", "usku2sh"},                        // 31
	{"ex", "b90vgq8", "g41kfhz"},                        // 31
	{"urn:", "w0nltcz", "r5mwujv"},                      // 31
	{"urn:", "aytk9qz", "6hp2e3u"},                      // 31
	{"api:", "ow4nhw5", "v45cgnw"},                      // 31
	{"api:", "5q97w9w", "737w99w"},                      // 31
	{"urn:ietf:params:scim:api:", "ivo11nt", "ivmmq0t"}, // 31
	{"urn:ietf:params:scim:api:", "kuysqv8", "kuyss6v"}, // 31
	{"ietf:params:scim:api:", "yp155io", "ynmqsio"},     // 31
	{"ietf:params:scim:api:", "1h1qsfe", "fmvtg9r"},     // 31
	{"URN:ex:", "6rsles0", "bdyeyqs"},                   // 31
	{"URN:ex:", "ekwywgi", "xvzlrjy"},                   // 31
	{"", "n0we8om", "gu8nwvi"},                          // 31from7
	{"", "ptjp68f", "6rd9bm6"},                          // 31from7
	{"urn:ex:", "z9udl03", "g04s1ia"},                   // 31from7
	{"urn:ex:", "3809dk0", "1v09din"},                   // 31from7
	{"ex:", "7ksd8hy", "444o9ou"},                       // 31from7
	{"ex:", "1qq5d0y", "zdyhodw"},                       // 31from7
	{"ex", "m4w2tlj", "po8g5en"},                        // 31from7
	{"ex", "w0pfp5d", "bco5sq5"},                        // 31from7
	{"urn:", "xc2ciqb", "f7mr213"},                      // 31from7
	{"urn:", "su5cxas", "z0u9vyw"},                      // 31from7
	{"api:", "yhtntdt", "ot5g8rl"},                      // 31from7
	{"api:", "v5942nm", "fc5t6da"},                      // 31from7
	{"urn:ietf:params:scim:api:", "k1ng1bt", "f6mppip"}, // 31from7
	{"urn:ietf:params:scim:api:", "roby9xr", "t1by9xr"}, // 31from7
	{"ietf:params:scim:api:", "zmtdy28", "ut71z94"},     // 31from7
	{"ietf:params:scim:api:", "a5gja7y", "wyl2z60"},     // 31from7
	{"URN:ex:", "fm4qud0", "1dkocpa"},                   // 31from7
	{"URN:ex:", "9rguu4s", "9ri7u4s"},                   // 31from7
	{"", "mdmgs20", "mdmgs0r"},                          // 33
	{"", "4dezmfz", "bvtv0bp"},                          // 33
	{"urn:ex:", "v0uxqwc", "5loymp8"},                   // 33
	{"urn:ex:", "0c994i7", "rrwn1yf"},                   // 33
	{"ex:", "ysdkelq", "g2w0lwz"},                       // 33
	{"ex:", "jx6rf8e", "jvz0f8e"},                       // 33
	{"ex", "3x12lkm", "erxbjpg"},                        // 33
	{"ex", "ceo7q1y", "znufas2"},                        // 33
	{"urn:", "2ozv903", "2q8typu"},                      // 33
	{"urn:", "napcxio", "708mfsm"},                      // 33
	{"api:", "tt3smqx", "v0usms6"},                      // 33
	{"api:", "1hijb60", "a8xdg0h"},                      // 33
	{"urn:ietf:params:scim:api:", "3c3n4qe", "9wduibm"}, // 33
	{"urn:ietf:params:scim:api:", "xqgjpz9", "ufovwow"}, // 33
	{"ietf:params:scim:api:", "z880p03", "xxz0npu"},     // 33
	{"ietf:params:scim:api:", "m9cbkzd", "m9cbm8d"},     // 33
	{"URN:ex:", "00i2y9u", "00gty9u"},                   // 33
	{"URN:ex:", "exr5h9m", "q76u1w7"},                   // 33
	{"", "3s52sjj", "3umlsjj"},                          // 33xor
	{"", "xcrza1e", "xa0za1e"},                          // 33xor
	{"urn:ex:", "y35wmav", "y5q5mav"},                   // 33xor
	{"urn:ex:", "8m7q753", "8m175uq"},                   // 33xor
	{"ex:", "fv7e5q9", "fpqgwq9"},                       // 33xor
	{"ex:", "gyq04f7", "7djzhet"},                       // 33xor
	{"ex", "a7fgdv2", "0pz8v4w"},                        // 33xor
	{"ex", "orn4brn", "orn4d4n"},                        // 33xor
	{"urn:", "udrt0an", "6hvw78x"},                      // 33xor
	{"urn:", "x376ap1", "zsu6avw"},                      // 33xor
	{"api:", "uh1euie", "owlpwuv"},                      // 33xor
	{"api:", "yqgkn6y", "aioomtt"},                      // 33xor
	{"urn:ietf:params:scim:api:", "1zcuoub", "4komsr9"}, // 33xor
	{"urn:ietf:params:scim:api:", "gutxtag", "35v07ot"}, // 33xor
	{"ietf:params:scim:api:", "uz9tzo0", "9bnbkm6"},     // 33xor
	{"ietf:params:scim:api:", "9xq8xo0", "iwxpnf1"},     // 33xor
	{"URN:ex:", "3m57qsf", "jy6pfdo"},                   // 33xor
	{"URN:ex:", "rvvp6re", "p4vrv0e"},                   // 33xor
	{"", "b6giuqe", "vwnacvv"},                          // 37
	{"", "0rrp4a9", "dntkxq4"},                          // 37
	{"urn:ex:", "wemmdpw", "9gynriw"},                   // 37
	{"urn:ex:", "g9suvh4", "zc2yezc"},                   // 37
	{"ex:", "qxbhtxr", "xn58ofi"},                       // 37
	{"ex:", "m8w0m7k", "tkjceai"},                       // 37
	{"ex", "gt0sz83", "xicjkey"},                        // 37
	{"ex", "xvr977i", "nv66ced"},                        // 37
	{"urn:", "ewa2xre", "3p6u2yq"},                      // 37
	{"urn:", "r5ihlvw", "jersre6"},                      // 37
	{"api:", "j1urjj6", "bc63q1d"},                      // 37
	{"api:", "5c8rfx9", "1zbeimu"},                      // 37
	{"urn:ietf:params:scim:api:", "lggh7fh", "vj4hz8m"}, // 37
	{"urn:ietf:params:scim:api:", "0cgmky0", "sayn4zj"}, // 37
	{"ietf:params:scim:api:", "lo1jsqw", "gn8iwvb"},     // 37
	{"ietf:params:scim:api:", "njmqt0v", "gux2xi5"},     // 37
	{"URN:ex:", "z9y94b5", "k7i5ene"},                   // 37
	{"URN:ex:", "s6h59h2", "nskqb8n"},                   // 37
	{"", "q0ujiiy", "ky425tp"},                          // 131
	{"", "pvhgvch", "cty8md5"},                          // 131
	{"urn:ex:", "fi13jfl", "fg0supb"},                   // 131
	{"urn:ex:", "3bb2y7m", "9madhob"},                   // 131
	{"ex:", "21lcb08", "e1lfqiz"},                       // 131
	{"ex:", "e8zj6th", "skl3361"},                       // 131
	{"ex", "doj78vi", "rs2lv9i"},                        // 131
	{"ex", "9b0u9rf", "3r85y7u"},                        // 131
	{"urn:", "azcnbpo", "o56ehyo"},                      // 131
	{"urn:", "v30ytj3", "fm59roc"},                      // 131
	{"api:", "pce5c16", "b0slfom"},                      // 131
	{"api:", "jc1u3vo", "egf2nm4"},                      // 131
	{"urn:ietf:params:scim:api:", "c8vkzct", "w7tpzqd"}, // 131
	{"urn:ietf:params:scim:api:", "mbvfsyn", "xsa3rk1"}, // 131
	{"ietf:params:scim:api:", "ls6dm6y", "ghg86wv"},     // 131
	{"ietf:params:scim:api:", "igjudk1", "j7bydvc"},     // 131
	{"URN:ex:", "buoik9g", "quuk5z7"},                   // 131
	{"URN:ex:", "gzcxp7b", "cfjkirx"},                   // 131
	{"", "xacq2ju", "wpsgkhp"},                          // 65599
	{"", "mne46on", "8qghiuk"},                          // 65599
	{"urn:ex:", "2c56xfz", "rhjxgz1"},                   // 65599
	{"urn:ex:", "gl26xl8", "tcajotx"},                   // 65599
	{"ex:", "cpav59y", "9hm27f6"},                       // 65599
	{"ex:", "1mt0vpa", "6i4seyu"},                       // 65599
	{"ex", "ok8a72z", "1jeqo7g"},                        // 65599
	{"ex", "aq0vniu", "lzude51"},                        // 65599
	{"urn:", "yf0ofu6", "ww0ppe0"},                      // 65599
	{"urn:", "ldty003", "3h3kssc"},                      // 65599
	{"api:", "5quua4p", "3znymm3"},                      // 65599
	{"api:", "f8uhoba", "qnzrc4o"},                      // 65599
	{"urn:ietf:params:scim:api:", "erierix", "3j8y8tl"}, // 65599
	{"urn:ietf:params:scim:api:", "lm5nuxc", "3i09q8l"}, // 65599
	{"ietf:params:scim:api:", "jvm1wri", "jman7zq"},     // 65599
	{"ietf:params:scim:api:", "snhii7f", "moemj8t"},     // 65599
	{"URN:ex:", "fa906jc", "n2y7wow"},                   // 65599
	{"URN:ex:", "qyfm9lf", "7wartmn"},                   // 65599
	{"", "ubgk5jy", "dhx07d8"},                          // 16777619+
	{"", "n6sj5bq", "57ccoim"},                          // 16777619+
	{"urn:ex:", "v150bc6", "d0zk9cn"},                   // 16777619+
	{"urn:ex:", "4bg3pcy", "vkujmev"},                   // 16777619+
	{"ex:", "ntj1dj2", "471wope"},                       // 16777619+
	{"ex:", "vqwmarh", "hxdjm87"},                       // 16777619+
	{"ex", "4i6mjdy", "q4a84wl"},                        // 16777619+
	{"ex", "5gvxhqv", "b2d06wj"},                        // 16777619+
	{"urn:", "hdhxm7l", "qmf8yn1"},                      // 16777619+
	{"urn:", "al0ladb", "kqrnrxl"},                      // 16777619+
	{"api:", "0gkzm62", "ewywpvm"},                      // 16777619+
	{"api:", "glocze0", "k1rxb3q"},                      // 16777619+
	{"urn:ietf:params:scim:api:", "ypcwn1p", "mbbx5j2"}, // 16777619+
	{"urn:ietf:params:scim:api:", "8k49lco", "qd5x76a"}, // 16777619+
	{"ietf:params:scim:api:", "ruye6qg", "uri1r15"},     // 16777619+
	{"ietf:params:scim:api:", "l05fpma", "60pu4f8"},     // 16777619+
	{"URN:ex:", "q57buhg", "x13489d"},                   // 16777619+
	{"URN:ex:", "6yz3s36", "ffyjijx"},                   // 16777619+
	{"", "b8k90rk", "axyz0bs"},                          // 16777619^0
	{"", "wzvp4lw", "bxcun3q"},                          // 16777619^0
	{"urn:ex:", "rk20ov9", "pue7zhp"},                   // 16777619^0
	{"urn:ex:", "jro3nbe", "nspwul8"},                   // 16777619^0
	{"ex:", "zf19e8i", "gl6v1sy"},                       // 16777619^0
	{"ex:", "xvukaqw", "wpx2rac"},                       // 16777619^0
	{"ex", "fjbek6e", "24we2a2"},                        // 16777619^0
	{"ex", "vvi806g", "p61vrna"},                        // 16777619^0
	{"urn:", "i1lvnk4", "rfug4hs"},                      // 16777619^0
	{"urn:", "9mfbqug", "72veiss"},                      // 16777619^0
	{"api:", "bdl92lp", "uig2cho"},                      // 16777619^0
	{"api:", "5kz40y8", "drbp4jo"},                      // 16777619^0
	{"urn:ietf:params:scim:api:", "dc7opid", "f3wlqeb"}, // 16777619^0
	{"urn:ietf:params:scim:api:", "75xpk1j", "ajfjon4"}, // 16777619^0
	{"ietf:params:scim:api:", "let9zz2", "wyfszvq"},     // 16777619^0
	{"ietf:params:scim:api:", "9olzeo3", "fum25lr"},     // 16777619^0
	{"URN:ex:", "t1hck9o", "g4rxhtl"},                   // 16777619^0
	{"URN:ex:", "hntdbcy", "re8xvid"},                   // 16777619^0
	{"", "aw", "c9"},
	{"", "as", "c1"},
	{"", "Aa", "BB"},
	{"", "ab1c2d", "2d1cab"},
	{"", "abcdefg", "gfedcba"},
	{"", "aabb", "bbaa"},
	{"", "ab", "ba"},
	{"", "a1b1", "1a1b"},
	{"", "aaaa", "bbbb"},
	{"", "abab", "cdcd"},
	{"", "adda", "bccb"},
}
