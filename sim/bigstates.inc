	// frozen checkpoints of the reference models (tools/freeze.py): {algorithm, tuple element length, position, state}
	{"blake1-224", 0, 536805376ull, "45e8d9017d10152e4fbf9ad0cce98922ea3e2759510a733b94ac45213aeacb470000ff1f00000000"},
	{"blake1-224", 0, 2147418112ull, "992a1321f5703be66eb9832bc96667d92ca15fdb9b9fd8800e091f7df7ef04aa0000ff7f00000000"},
	{"blake1-224", 0, 4294901760ull, "79f87f147f7b7f5dfdac97e3ec82b0270fe598b342cd7a23641ee97e3379b0130000ffff00000000"},
	{"blake1-256", 0, 536805376ull, "e401b8c7420fdca598c2b2b1bb421c1ed2beecd3cb251412eecb2b3b0f8b8a1d0000ff1f00000000"},
	{"blake1-256", 0, 2147418112ull, "ecaa323bb3ed025dec318b1d981469be8fafb9156cc021bf1a260dac1aa3b38e0000ff7f00000000"},
	{"blake1-256", 0, 4294901760ull, "9927ccd7ac0ef0288d1fe05f5b9b55c228b97c9c96394e96a4e03f02592da0e70000ffff00000000"},
	{"blake1-384", 0, 536805376ull, "5838767a7eada0f2be2af43098b56f715a721b6934ca447bc9c8c5cdb8cfa731f9c3c5f90476c6901492c8140a9a39abef25fa7333519161b1797cfd17e3fd240000ff1f00000000"},
	{"blake1-384", 0, 2147418112ull, "ec3b93daff69bdda155e8e7b9b8e8b53223cb506318dcb2dc88faf2528f3cf3b8850322030df090ad10ad7d4c5bd77edc82acec29b2c9173e6ac93b8ad7c22b70000ff7f00000000"},
	{"blake1-384", 0, 4294901760ull, "26cba8b1ae5cd637a5945828a809df2361797667b29c84ed7d5d9d455d17c6eb09603a226e19748654b5958827c391e4a3a262b8130c8b4024d25c5aafe473120000ffff00000000"},
	{"blake1-512", 0, 536805376ull, "e840163b81168edf44654bca45f15dcad1fd92e0162ed5275b3bec738c4776c71982eecf4859e66ff513d70ad248506019e766f7d94753b61b4ea8a46e63d92f0000ff1f00000000"},
	{"blake1-512", 0, 2147418112ull, "84497807b89eef5135e98cb018aa71aaa76e622e377d917ce62b3aa4ced6e69fc21a93f246f0c402ffea6c2ae77545f02af5f6b2345089f9b0681f8f6c667efd0000ff7f00000000"},
	{"blake1-512", 0, 4294901760ull, "483c5aa834a9ee6a9075133cf83e10684387acae842d14235f9bcc33d6123b6ff9019d4363af113d2ff01ed3a6965839dc4d8b969ae389e2f71f1719178553bd0000ffff00000000"},
	{"blake2", 0, 536805376ull, "1b61db23befe5c71506a8072dbbee912c16fa86f610103f82a876c1571fc50fafdd1acffcc10458796f914b816e98ff774fa72384743f91ef9b3053a7382d14080fffe1f000000000000ff1f000000001e7863c70d80cba5150013e6cae5210df6f7df5fc0a7a9ec1aa8e0fc8eac9cd4b2d0244847521aee146eb9152c0d7f62075d62a642d9557d0973edd6f7273e3213c5150ddbebbad86e1c785a6c94647dafc954c9e078435e1b258672cd0521fc0451e700859385081ea66f6c996e6f85fbc1a339c9d0268a54b91909122b4a37"},
	{"blake2", 0, 2147418112ull, "7cabd1ec7185caacb8328fcb0a3df5709c136221dbbd397cf9b99b560e0a1d4d7c47c6b35adb2639e767269c7c0a930c20d881aca4ae9459bce5458ab75f9a4980fffe7f000000000000ff7f000000006208e48a8411c5d64616e21dc80ea5bfd379e7b092160ee21ed472ec1367287fc490103b96e36e2795b8f80c451aa0b566092531d4fd1a75d62148c794c26da865837ced3bd8ec7792bce543dbde906a3564ee8323b8312fc3b6de5120d784cb2b75dfa47fdb627a1bc147da7983f52015eec2956f3a3994a0ba4e51b2490f97"},
	{"blake2", 0, 4294901760ull, "51e1ef194acba65b183a96eb6e92bd1545d46612c85fd0134dc891398eb27df1aa93999ea64a00b39a250e7438d18ba42dd68cf1cf951bdeeea92ab08cfe041580fffeff000000000000ffff00000000dcf93865f8a392a89353e9aee36b6a0e95eb0138288e898df8c1061a0dfe58f2b629d3f04cf36a2328f1b592c43c4b40e08b9c9f3ebe2e93ac24e98da964880e2cf0fb4103667c4c227cbe9544ab7edbbabfda33e38af8530d21031064233510d7b8823e65dedc19143c121aa87dec72ef427959bef17c80da4c15f58776eb75"},
	{"blake2s", 0, 536805376ull, "b20de3b83f9d8c2d6b351f5d61a750a8984c953ed06bf6015a68062c7643582ec0fffe1f000000000000ff1f0000000013c5150ddbebbad86e1c785a6c94647dafc954c9e078435e1b258672cd0521fc0451e700859385081ea66f6c996e6f85fbc1a339c9d0268a54b91909122b4a37"},
	{"blake2s", 0, 2147418112ull, "50e72f25ff8e12cfa724acd7149bc3539f427e842289c325a5d55fade8228680c0fffe7f000000000000ff7f0000000065837ced3bd8ec7792bce543dbde906a3564ee8323b8312fc3b6de5120d784cb2b75dfa47fdb627a1bc147da7983f52015eec2956f3a3994a0ba4e51b2490f97"},
	{"blake2s", 0, 4294901760ull, "343f5353103ac015e85070dceb7a706de0c6a5eec7c061996432102ae52fd217c0fffeff000000000000ffff000000002cf0fb4103667c4c227cbe9544ab7edbbabfda33e38af8530d21031064233510d7b8823e65dedc19143c121aa87dec72ef427959bef17c80da4c15f58776eb75"},
	{"crc-32", 0, 536805376ull, "bd09c2e6"},
	{"crc-32", 0, 2147418112ull, "0585a700"},
	{"crc-32", 0, 4294901760ull, "6ba31fb4"},
	{"cshake-128", 0, 536805360ull, "cd468fa9a4dbe7c0ae1862f7e1b6c87abacfdf402dc5cd88ec19932e568e6b5d73f0df0bc8944406375b8e2461540652bb9f860f68ee9ae92f48243e7df63e8d1e22ebea5cc6e11b0b1e6985733c06db66c3dcfda1829b8ab80293a5b69bc98389102c74e391a2c0c3a5e09d4fd69b9cc1b0900aa84aa54969bdd5eb1caaf96b40748f472f31da9496ac7ec6557bc89d3973efc712b66d0e9d87b837eac014424c410df4cb9d83f64fa05a0079259dbe646fe6acfac721c24cbbbd4b12b35caf4657cab4caa41f490000000000000000"},
	{"cshake-128", 0, 2147418000ull, "3ed7f53e68654d851f494b396fcc726f49620627d8b33da09c378f6407735ad2a663393040def3217d6971e5a23d674a1df4fd3317b5fce26b5a7e22f0bb7e1825295a993a5d71adad25bf4c46034957b5588dfc853c00429f8bcf6a9d96a37fa887208066c6317055cc723b678fa5f715f40382684c0962cd09732fce51e257973c879402786ca2f3f317d69121639459ee8b8b927490fe5fedc5db8f43b473e83fb6c0bb863587a206b38b9ae452e10b9980e3d5c11cf0b5172ce9778b0519ccb19c2fcfbe8d5f0000000000000000"},
	{"cshake-128", 0, 4294901688ull, "1fccd37e5172b079f2b4c56468815bcae2acb1657e44de96456a48687efc2d8fe0c2369a7d520e854c850d3a725dfac3f60c40947e26128d0f427a76bd6272d0ea45be3aa6629aa6d895d49ff8765fe000853a2c5a805dda2c1112b77a36b9fa3f4fc35aed501bf2c3546691a4d46aa9225c1949b87a07cdc7df109b3a4d5e7fc357de5c6471e018307f86fe8e54c89c7ebb4e1bd90b1111a73f40c3427703f9352f42b516de55c69cdf885b67f7ca72bf0293888b0f6ca5c003e1c2a9519074109f2e43571a95150000000000000000"},
	{"cshake-256", 0, 536805328ull, "2910321482ef0e7f9472d14479b7d6146105e793009bd76e55e0dba07c1dc916a04f278cc11eb2a9a40a7bfed0551df9fb8c9ec8cb640daa54ab75fcf76b67ea85f31d7c4521f079aaed28b481c6ae6526f5508bf42aba73534d44d87962f098c75dc440643a155e67cb67d513faac8ad60603075860b8f88d23dcd97b7b4e68da05c7b39cede241aa02d36505225e63ed97088398fb6c223a535508efa992147afe131c205e59acd61cceea89dbe33615a4523a28f400599457859db9fc743f08fbf8f133b104790000000000000000"},
	{"cshake-256", 0, 2147418104ull, "88f5280dd007361eb9f789f50f1f0050438ad24d4c1d39448cb47c3533a48b47a89470c6b624e9f940c92e298d2e9fb57b3208a69192c225a749851826745ddaf373f79304b17de6d9a4ba8a056e680288a185243937ba9d82d9f68b540aec1915252a2ec1d9c9a5852062d02aeb0ae2d9e4d257c6bb5bb75724b5ad00b3925fb3634f79da4a62f56744e61552a72b92debc368be6b1e8429ac97a26374074d7cfd3fd450a290aa46fbcf93da09cec9904312d2648fc457a3a2ccdcef84031b23d6cb35d4393d4b30000000000000000"},
	{"cshake-256", 0, 4294901760ull, "b1ceb6ad91d4721df409b3f7ab094754e558a8c5311dba533d647e9de0528df77f54848501f0c0b643986f11a60b6b8746da53975e727d9fae05ecf3c3712c7b2e32510cc9c2f62c4abaaf36ecc95c432b496031d5c27013731929c2a5eab416a03091f3e3186d8aa932639bab39fc437afe576d18e90c37b2661cb0c6aceed5ceafa2275853084dcdee9161f2f199663854b7d28d8dc11d2ef441b2b32ff4af1ff304f4dcfda0b2c19b447f4f89f7829d1f02faf1fa396709a37a240783e45b9ab5b70e92c1358f0000000000000000"},
	{"fnv32_0", 0, 536805376ull, "a58f11fa"},
	{"fnv32_0", 0, 2147418112ull, "934566cf"},
	{"fnv32_0", 0, 4294901760ull, "73d745a7"},
	{"fnv32_1", 0, 536805376ull, "62a82a77"},
	{"fnv32_1", 0, 2147418112ull, "4821e76e"},
	{"fnv32_1", 0, 4294901760ull, "2786710a"},
	{"fnv32_1a", 0, 536805376ull, "61e19f67"},
	{"fnv32_1a", 0, 2147418112ull, "fe7a6d48"},
	{"fnv32_1a", 0, 4294901760ull, "8a62d8e0"},
	{"fnv64_0", 0, 536805376ull, "d7dfd406ded28b7a"},
	{"fnv64_0", 0, 2147418112ull, "4b18b69e9332a62f"},
	{"fnv64_0", 0, 4294901760ull, "deee9bf7298755a7"},
	{"fnv64_1", 0, 536805376ull, "5538972b0bfc9c97"},
	{"fnv64_1", 0, 2147418112ull, "f7474e574d05e7ae"},
	{"fnv64_1", 0, 4294901760ull, "26d082bb61b6f72a"},
	{"fnv64_1a", 0, 536805376ull, "b0c615781be5b347"},
	{"fnv64_1a", 0, 2147418112ull, "293981c5404a4ce8"},
	{"fnv64_1a", 0, 4294901760ull, "4558739e121b53a0"},
	{"has160", 0, 536805376ull, "cc97aad7c21558da0e0e094ece3264d3a6d218d60000ff1f00000000"},
	{"has160", 0, 2147418112ull, "23386e64495ff06a3c458a94636281f0ea11fe8f0000ff7f00000000"},
	{"has160", 0, 4294901760ull, "c34334a3b0ad7f8a8b9641c51c2858b6c5a89dae0000ffff00000000"},
	{"md2", 0, 536805376ull, "38fbd9a31e99cc8b40e1acdcc5a1a6802e7115b93e04bd6cc281766074eb54e10000ff1f00000000"},
	{"md2", 0, 2147418112ull, "47bf5ee607dee6dc9e69d911372bcbe43f5f06a0805792c77ada86fa8de16f1b0000ff7f00000000"},
	{"md2", 0, 4294901760ull, "b0d3dc056349b519aef48489ec023ed539c047b1b0eaa56c7f7610e904b101a60000ffff00000000"},
	{"md4", 0, 536805376ull, "cfd5503b41281c9b964f3c15b9676f1e0000ff1f00000000"},
	{"md4", 0, 2147418112ull, "0ebdde05f5bb4076aaa1e3b74a833a4f0000ff7f00000000"},
	{"md4", 0, 4294901760ull, "f3d827649820591ad4401de312cb63640000ffff00000000"},
	{"md5", 0, 536805376ull, "1be7dbd4f481e5d8667d469b5ad5e5400000ff1f00000000"},
	{"md5", 0, 2147418112ull, "cb5696a694c5afe657ec4f1cda0c24190000ff7f00000000"},
	{"md5", 0, 4294901760ull, "349d2c10bc26135bf4e2b2ee79acfba90000ffff00000000"},
	{"ripemd-128", 0, 536805376ull, "643c07ad476896dd77dcd540d6b0b1ee0000000000000000000000000000000000000000000000000000ff1f00000000"},
	{"ripemd-128", 0, 2147418112ull, "38b4e0f3a0b96af279d46804efb5d23e0000000000000000000000000000000000000000000000000000ff7f00000000"},
	{"ripemd-128", 0, 4294901760ull, "4ab17a95efb8914299532a096fb6f70a0000000000000000000000000000000000000000000000000000ffff00000000"},
	{"ripemd-160", 0, 536805376ull, "d54d4ea29022d6ac323522b4338e6cabad1f42ca00000000000000000000000000000000000000000000ff1f00000000"},
	{"ripemd-160", 0, 2147418112ull, "04f5b3756264c0b12063677cb43f633757d30b2600000000000000000000000000000000000000000000ff7f00000000"},
	{"ripemd-160", 0, 4294901760ull, "9a63b88f9b981bbf4c753e148aa0f1c57166d85500000000000000000000000000000000000000000000ffff00000000"},
	{"ripemd-256", 0, 536805376ull, "9862a1a5b2c4273e0753e2ec63bc8345f934ef40a8f0578726145f7d12ac10a300000000000000000000ff1f00000000"},
	{"ripemd-256", 0, 2147418112ull, "7ea16c89bb7704720808cb224b2baed2af6879fa3652d2b121abd0d55a73c0d400000000000000000000ff7f00000000"},
	{"ripemd-256", 0, 4294901760ull, "09c11881ff541fe17ae6e4464340939bac15647e09e6925d9e39891de39c9d0500000000000000000000ffff00000000"},
	{"ripemd-320", 0, 536805376ull, "4de074ab1d72778ab15a4c2a16765497ff753aa3a26317531733e2b6c00811723ebd3fc4bbb9f4ff0000ff1f00000000"},
	{"ripemd-320", 0, 2147418112ull, "71d25445b071f83c2840685ef2f75dfae4c853a405b3a3e44d6a8ac40831d70e883a58fced31baf80000ff7f00000000"},
	{"ripemd-320", 0, 4294901760ull, "bc86dee67130637f7a432cfeab1b9a09aeb4b5feb9c296bd811eaa5bb1d30414f5ce573ae5a28aab0000ffff00000000"},
	{"sha1", 0, 536805376ull, "575a5fdcebd4e902e72be1219add5f67cfaaca280000ff1f00000000"},
	{"sha1", 0, 2147418112ull, "be87f61e86910cbf417f69d355a416b746e255440000ff7f00000000"},
	{"sha1", 0, 4294901760ull, "186d9a9279e1588944be025cd86d6ffb1e7776c70000ffff00000000"},
	{"sha2-224", 0, 536805376ull, "dc5e700fbaa59f8d7e555f2b085176db75d60770791721641c72ce566a71b3c10000ff1f00000000"},
	{"sha2-224", 0, 2147418112ull, "22b329bc7ee960547fe612079381544acb4d3c4c71992795fbaa4984743d62b90000ff7f00000000"},
	{"sha2-224", 0, 4294901760ull, "e9f3ef77c282ed18b738b75106656b69a31bec01a65886c7a0929db52f0435310000ffff00000000"},
	{"sha2-256", 0, 536805376ull, "f24e1cfe44558ce2e274b54284d7f300298e2fcc960a319367a822e24728d8520000ff1f00000000"},
	{"sha2-256", 0, 2147418112ull, "5d5ff0c6db2ed4ccaaa02fceacde5fb8fba717e7e7e75e69c571c8349bc009aa0000ff7f00000000"},
	{"sha2-256", 0, 4294901760ull, "f84f5c91de9025b4e57ede6aa67c53ee6fc6c4a6d47b49dbbb0c53aa699ba1090000ffff00000000"},
	{"sha2-384", 0, 536805376ull, "fda3862e67509cf710ec933ec29759d6b6a2ebbfa9629f2759b8c1359d0ed58f0136392cac602ac9e518b0795c815a95d097124445536aa9e9af2c7e34327f010000ff1f00000000"},
	{"sha2-384", 0, 2147418112ull, "3afc96f08fbeb4f9b87e497c58b81cb152041bd86cd3c60a2ebeb9525874293f8ba93969e79d27e534e5d544c5e99ad8c406b6e674ffd0c7bc5894bd939ab0e50000ff7f00000000"},
	{"sha2-384", 0, 4294901760ull, "7654c73802d91741bcf1f8adcbf0af4d14c48737009e971ebd47cf78e6d795609dbb5b890991b9f18acfc59179b560517f807010a8d6e98fda55d03370fcb92c0000ffff00000000"},
	{"sha2-512", 0, 536805376ull, "d12350b7cdc27acd14b474e138ffdf3856f738a4996f648739c990b1b30f2ddbe6555e5673a04f7c55eeaeb8d47b3ae21122562cc8afc31aa79762165fe4576b0000ff1f00000000"},
	{"sha2-512", 0, 2147418112ull, "fc5ed17725da1855ad6debb7dba02b2b5eef8229a901fb5715288776787abc9af189c2919d0323691a5790860167c4c89265f2902f580d54f303a98f8e546f070000ff7f00000000"},
	{"sha2-512", 0, 4294901760ull, "ec912c39b3fb671ea110e81b55b3599f4b7d18a683ea8e62e3450d582a37ed0f15cd2f7c4278de554827f7a24a055cc86bb086ceb9b9a54885161fbe7cebcdca0000ffff00000000"},
	{"sha2-512-224", 0, 536805376ull, "921e365f2ab01c35e7ad474ca88c0ce6f062ab32e86773191a064b5907ad82b923a99fe1e4c9649d7465016a9518e04e78db8e9f2047fe926d3c749e13d23fc90000ff1f00000000"},
	{"sha2-512-224", 0, 2147418112ull, "dc4eeb8509aad15df3913e303003994b1c9750890222fdf008c2ec4bc96741b523ebd26122f00a47a555617e1b1c787afd96c35881ca00f434ca3ab37ef4a1160000ff7f00000000"},
	{"sha2-512-224", 0, 4294901760ull, "443362d7bdfbd1b569ddedc97d88b1c65cb71f1a01e47e55772c642ea12947533599eecaa3f0a5a7a5ad9b0152347fd0cdca96d0ce4739c1e8357b96ef02826d0000ffff00000000"},
	{"sha2-512-256", 0, 536805376ull, "b76e9cb6fd1cbf0d2f2d17e0baf4cd677fdc5ad31336d5dc703662f56dc92704e15f498b1b5d8291ceca6c8bb9dc6dfaf90bf35db480ef5e38031fecb357afdd0000ff1f00000000"},
	{"sha2-512-256", 0, 2147418112ull, "ab5789e64b71d0963fa2e04cdd69b04d4e046e40160466f7ab109e1b5e0fdbb09ec5791bd8ca58055b2dfb76a61f3afc7d10a8d289b685b08d5c9fad45cb3e840000ff7f00000000"},
	{"sha2-512-256", 0, 4294901760ull, "a181c25b753a708a6ed94ecce4b2d6ab0f88fec58429143689060222d44aa38dc2df9d0e292a51a88209dbf2cf4312c05698ba088a47f8babe62c0a8762230520000ffff00000000"},
	{"sha3-224", 0, 536805360ull, "d2c91f6b9c8fdfb6c17fa2da92e8d2be413c0b175e335acf01a7d2d0a5e890f025e2773e348ecb8cff53f75a795e6a0a77ef3f3ac40182789202a5e98bf0e7c4898ab7f3c0c993d1abe767ba774b0a7764da0642103c4aacce8e827eb407c5beba36ba5caa793323810e06c2ce951d939b4f5b7fb954d93c61d544a8ccecf3dc4a824e28e7454eb4303a3623f1265d6afe3b69be2d53a97e2cebf5519b119ab0af35d6632dac44494f5cfe8dd73f17c0b3ece137441323ac55965b604e0737cc53ec9a465e7a1b160000000000000000"},
	{"sha3-224", 0, 2147418000ull, "2712b0843379a910192459065b97949dab5038bd3241fda7e745f66afa40435b32c4cf106daba22e0d604cb6077dfad6a3b211328b3ab36a9e0dba532571fb0f141b32ebb01b448f7a2d454c1096a42196e5e02d592deee5537b4b71a7cebb29e9f92fd9a8ae0577fc93cb1e818ee1f3e03b480246e02bd3f61aa9486df28d16db6a0e3ec9ab5ff63b80f8dbd0d4c6909957f7c1d57955b6cb97a4cabf6e7480ec5cd2486bd7273d0193cf1a8be0abdc237f4346f12b85bd2bca8cad76e97125a47866894b8fe7e50000000000000000"},
	{"sha3-224", 0, 4294901664ull, "080f1f85c070924456bea08c22b09d52408b2813d9898c14414a84eece01590064b6e74cb5c1a6b26d1f63943a5b5285a47405b06510cc64b662a4fc77941c818b72336e22e98373d5266b8883ccc21a9eae671cc7c3a770c65396bbfcd82914dc4787e1a46c734625e7ec701c60cfbdfd62b77575067e2ad93531a179f389e33de23ea259811cd44b6fe375de8fe13e6efb612bf87b4079ad98a443faac5201366d1d972e6e63e4f9f9167b49189310e9e83c0e75e9bd30a4aa5387e682b4c07ee5c10186ab4fa50000000000000000"},
	{"sha3-256", 0, 536805328ull, "6c4157e437e5d27a0b7487b547fe3365846cb95c560ac06bd02f159e5d9de98bc1ead4d6a2ebcf8efe9fb89bca6ee5eb99456b1809390ded90f087dbf4b17d3479ec87e8b5087ad8bb0c63b011c9df409d05342f806fb326143efab62ba32c439f1a5484ccd3ad191d74433bf19262f15b3574b5a1f414e8ac8f9cc0a48c006d6043cbf5e8f674e9169f092d17c8d20d4655eafc5b1c98f7ec71f603e83a2cde88284334740730ea791f63945c00eef9e45dd218a58249080b07e964f679dd855edb80312306c6720000000000000000"},
	{"sha3-256", 0, 2147418104ull, "8558c35acd9a45767b937dfcb247eafff4ab4c89fa7977e0b718784635457915ab1ea3e7f98972c112854246c080cf46ec7c23cd2bf9f1057ff1046444bca740e06b1baf00888c079999f5a8f861e44a7875f4ef8c493f491a2723362f394c056dace110c46f7c2f40d0fffefa842a852a69e252f0eef91a4f265d63efbfbc8d9e60ddd1e6b6a02cad7aee14d019c9f874fd190c1745661ca3ddb1256402eb89b7807786711c5cb792840985d2dd18af587af5be76db3cc4f090c9ec8a17a07952b1542afc7536a80000000000000000"},
	{"sha3-256", 0, 4294901760ull, "1f89de901439b9d63ef47468e5b69faa3334b5fc934a94c64e1b5ec49d154a2ee6bd6150e2a452ab70f393a1a8a4265f0d61ea5de4deb584b86703b6ab9872b8de0e00ef0d4bdaee06b158fbf7ec5ce46b9ccfc8180931476a9aac99a35cde7fd0a7ab5972cc27c08b2e5fb87258ebf4b6ff920e4cd0cefa4022f981becf97db619482ed00909a5625323f6917c60faf19ed107ae98bdc0357f6dc60d5a0a797efc547c1d1ffcf2b54df04a587f381f8599908063bdf5e5c1df1ee75a65fd775581da162b8a0d07d0000000000000000"},
	{"sha3-384", 0, 536805360ull, "65e688afbea7f10e6da204cf67a838845436a506afeedf09aa30359dcd94ab9c38b52d83f53a47c6d49faeb50aa68d4d663fd46012cf5e516ed69bf195fac36afe9887efe32077fef6cbdf8e9e23e1bc377535f6de464de84fdd7cd881861078b3d726f693eda8396145850682688d4d22dd3ce01e0136b779e8957b1e77f318871cc8b5db536591cdab57c804b08e3df2bbd6873ba21276ae93a8589fe145fc9660997441598895fe3f3fbec76863d561f340a506fc3636281a430c00ea07d066162db20f616a6e0000000000000000"},
	{"sha3-384", 0, 2147418104ull, "c3265f99130739ec8768099af52f3c2e3486955b329e21bfed23ef3f5031bd71683d69c25075c82f1b3807850daf46961d06d78de1050bf1d56dd390d989de9273507d5a7ece9671466f2738a5fb44e90fb3ac1f1b1e7d36a16adc3aedd81697b346ccaad17f16523ef002128a0145dc73d92a95bffa128023832c9149b8c5bb14b7efd32b53566296d0e2c5f97dbf729e51a75b96afe1e81b4ae79bb2b39c21731a9ab1302c1fe84929632c05cd6801508971fb573f1dc32fe1ae93e3906deb26be3defbab2362e0000000000000000"},
	{"sha3-384", 0, 4294901728ull, "89de3f2e72006d58cf52ff6ecfe64e25a7fb28c0baf0d3c7616d32f547fc2d733c83a5aef217089ba7eab8a3eba2b691fe4cf36d2155617409c3dc33b355a2515791954f52f03b163b4a742fda373ccf18f7b78d29a4bc16411d63e27fe1385a2694e0d6444d8640d6a0689b430f94b17cdf8e14c759bf4aa485ac241eab8da923f1e262836eba016ae02c64fff0fda1bcad4dce621fa8754ff5bc9d78a658fa461a083f22ec5ddbf811394adbb919b4d442eac7db656c2690430e743a4511f4851209adc6a1dfd80000000000000000"},
	{"sha3-512", 0, 536805360ull, "ea4c5e1a8ae0c7b94691c72de165e5bdc3585f8dd1f10caf515bcf2b8e6aece64773cb5d78874a572c00721850fde937d62264ccaf0e2657b0a5a3a5a21acd9a3a519a69ddff94c1632c49c266306904bd56a746fc1c608dae2b74ac38617b422b642c474d9ca13f6417dae3cd65d9929341ef817ecdb3fdf6a62c51232d358ce7615566718f62e3c403cfd5e8479ecab45b3e5b43c163128a16a795a1cc306a702eff49d10702f46c254b2a79142908e98323d9e78044c496b944a4e2905c7a8d5befd2406cc22a0000000000000000"},
	{"sha3-512", 0, 2147418072ull, "800f70fbe1df057911b003731f5e07e54bea6f554f032c51bcf4cd7bea7b2781fcac30d020e3808016df06e7408d603e6323e9a36b1b7a3f01a4fc96bf84df33fdf804cbf4376298f0833174f1cf615f750ec149295c0e5e9013a1d4f67fba2d5e77abf298447d411f677a57e73c8025cbc90bdde9d8ff6de7f1b08aef09d20fe3b2024a1efcf0f6122bf132ba269cfba4b71b0271c1b6c0e3f5858a78cf61f661026a50619897525b86fb714b0d227c7e633f0ff0e419a67b7778e36e5f37ca15628918e968f9080000000000000000"},
	{"sha3-512", 0, 4294901736ull, "e77cfd28429a4cdc79fd934aa4709438f6148091d994ce84d2dc28e5a480d36a39bd50f6b807eef4e7ec190ffb8570e8d5758b1f19c6402fa1abbb1e44bf19ad81198e2acb82dd18d13524634cc2d8de69c64f71f9b4cef01ea68c81a2605532bed99a4e6ba0883f7cdf6a4618bc457e4ccf93d9e8c25f4036f7658ea19e5666bd239a1114395f8d9798aa6a974ffd0aa67b0c7707e84cd7b4c0917d4373e57050116fbbcb05a19b596cc3833f99458b4c9622b5a28c95c0258da219ef9a437b94a255382fdfb1e60000000000000000"},
	{"shake-128", 0, 536805360ull, "224212222ac9746cdb8684a1e1b17f79d2aba33df63bee94ffdb8733b51cbbf98e079866a5e4169de324a3f448c820a98a669d6fe97ad9c9806aee1d45e479ab8bf074f86bf79e465db14ddbfa5e19753f5d60971334a9b127be741397af93a5b24f8f67adcd0bd23c69b18e83985155259210e2bb08221a249114a4b83737d5b122c545d61595f438bb9a28bd2c538c2d6bab675d7a0d54cba3853c9a883fb16bf67661aa5d0ba0da8cdd66776af8a924f6b321f0d3209e941b2d452034b32818fe466611177d080000000000000000"},
	{"shake-128", 0, 2147418000ull, "6da0af8620ab797a17fc845e0c525b66571a7c81270db8da090bd1938f4bc11a493836bcc92b6f657ab35ecf12651dbac2055a6519df67df6c00af38dfc49ef6e066bcce1e8e2bb828124c285f7f69ef96faa988fc491a6adb355b6cc693621ea4524835887551edc49446ab58c5c45f177f3e4d18e01c48f60732926409e81d82b1018b07f21b5bf6c721e4e75fbe456435ffcea94a41c218c50d607f14691e3fa25287ec8473f401e929f15af980415c95b4370085626e24a09a85c390ad861088b48e3a1da5240000000000000000"},
	{"shake-128", 0, 4294901688ull, "bbf21b196c49c8d3c107f47987085e2f4b8c5fa4d65b01b18ec6a31469a94587147e30a71156207f2bea881f3eeef40a48c544bf02bb4ab34318303df335711d482ba35fd46fc38f43c4778fcfb30d92e349a50b9569e598d2cd06f1b8533b5cea6a64ec0627641cc9904449889b7908c91f4f54d780d7b2967665fc39af1e7d891cd57f5d29dc5caa5827e3f6b17b0f5fd2606752939e691c1699acebe99d2c11966aabaa86e013b435f59c087b4dff4496ffc800029ec06d671ea79a685be09f9faa3417bb0bf90000000000000000"},
	{"shake-256", 0, 536805328ull, "6c4157e437e5d27a0b7487b547fe3365846cb95c560ac06bd02f159e5d9de98bc1ead4d6a2ebcf8efe9fb89bca6ee5eb99456b1809390ded90f087dbf4b17d3479ec87e8b5087ad8bb0c63b011c9df409d05342f806fb326143efab62ba32c439f1a5484ccd3ad191d74433bf19262f15b3574b5a1f414e8ac8f9cc0a48c006d6043cbf5e8f674e9169f092d17c8d20d4655eafc5b1c98f7ec71f603e83a2cde88284334740730ea791f63945c00eef9e45dd218a58249080b07e964f679dd855edb80312306c6720000000000000000"},
	{"shake-256", 0, 2147418104ull, "8558c35acd9a45767b937dfcb247eafff4ab4c89fa7977e0b718784635457915ab1ea3e7f98972c112854246c080cf46ec7c23cd2bf9f1057ff1046444bca740e06b1baf00888c079999f5a8f861e44a7875f4ef8c493f491a2723362f394c056dace110c46f7c2f40d0fffefa842a852a69e252f0eef91a4f265d63efbfbc8d9e60ddd1e6b6a02cad7aee14d019c9f874fd190c1745661ca3ddb1256402eb89b7807786711c5cb792840985d2dd18af587af5be76db3cc4f090c9ec8a17a07952b1542afc7536a80000000000000000"},
	{"shake-256", 0, 4294901760ull, "1f89de901439b9d63ef47468e5b69faa3334b5fc934a94c64e1b5ec49d154a2ee6bd6150e2a452ab70f393a1a8a4265f0d61ea5de4deb584b86703b6ab9872b8de0e00ef0d4bdaee06b158fbf7ec5ce46b9ccfc8180931476a9aac99a35cde7fd0a7ab5972cc27c08b2e5fb87258ebf4b6ff920e4cd0cefa4022f981becf97db619482ed00909a5625323f6917c60faf19ed107ae98bdc0357f6dc60d5a0a797efc547c1d1ffcf2b54df04a587f381f8599908063bdf5e5c1df1ee75a65fd775581da162b8a0d07d0000000000000000"},
	{"siphash", 0, 536805376ull, "c2b0ccf32451e57b9e0005c4cfbe12be218ce791035aa52dd8704dc539694df40000ff1f00000000"},
	{"siphash", 0, 2147418112ull, "9e36c094706cecce69e2925b7c0465119c31ac78d2ca8863ffeb19e9a77b34660000ff7f00000000"},
	{"siphash", 0, 4294901760ull, "ebba029587d9971514dfe5bf01d4a784b96c176fda7c999e548c80cd56dcb43c0000ffff00000000"},
	{"sm3", 0, 536805376ull, "c6ffd246f8292badb1304e401a788b693bc297b029cbecd40fc60364d5cbcec40000ff1f00000000"},
	{"sm3", 0, 2147418112ull, "f63171ff60c07db8f76a8124b6e32bc3f319dc8348b4299327d6736dbdc10c050000ff7f00000000"},
	{"sm3", 0, 4294901760ull, "7f0b0e188bcd8481a3bf00a12808a1b8270ddb36adc8a679b1ffa5a1ec1172060000ffff00000000"},
	{"tiger1-128", 0, 536805376ull, "bf0fda9bc451b7e534d074e7439d8ca891e036c86d9849490000ff1f00000000"},
	{"tiger1-128", 0, 2147418112ull, "b32ac449d404b7a49caf8ae4f36c395154e596dab4dcf44f0000ff7f00000000"},
	{"tiger1-128", 0, 4294901760ull, "a23d0c3b4a1af2ca9e0ac312ec14a404c88c9292a2858a8b0000ffff00000000"},
	{"tiger1-160", 0, 536805376ull, "bf0fda9bc451b7e534d074e7439d8ca891e036c86d9849490000ff1f00000000"},
	{"tiger1-160", 0, 2147418112ull, "b32ac449d404b7a49caf8ae4f36c395154e596dab4dcf44f0000ff7f00000000"},
	{"tiger1-160", 0, 4294901760ull, "a23d0c3b4a1af2ca9e0ac312ec14a404c88c9292a2858a8b0000ffff00000000"},
	{"tiger1-192", 0, 536805376ull, "bf0fda9bc451b7e534d074e7439d8ca891e036c86d9849490000ff1f00000000"},
	{"tiger1-192", 0, 2147418112ull, "b32ac449d404b7a49caf8ae4f36c395154e596dab4dcf44f0000ff7f00000000"},
	{"tiger1-192", 0, 4294901760ull, "a23d0c3b4a1af2ca9e0ac312ec14a404c88c9292a2858a8b0000ffff00000000"},
	{"tiger2-128", 0, 536805376ull, "bf0fda9bc451b7e534d074e7439d8ca891e036c86d9849490000ff1f00000000"},
	{"tiger2-128", 0, 2147418112ull, "b32ac449d404b7a49caf8ae4f36c395154e596dab4dcf44f0000ff7f00000000"},
	{"tiger2-128", 0, 4294901760ull, "a23d0c3b4a1af2ca9e0ac312ec14a404c88c9292a2858a8b0000ffff00000000"},
	{"tiger2-160", 0, 536805376ull, "bf0fda9bc451b7e534d074e7439d8ca891e036c86d9849490000ff1f00000000"},
	{"tiger2-160", 0, 2147418112ull, "b32ac449d404b7a49caf8ae4f36c395154e596dab4dcf44f0000ff7f00000000"},
	{"tiger2-160", 0, 4294901760ull, "a23d0c3b4a1af2ca9e0ac312ec14a404c88c9292a2858a8b0000ffff00000000"},
	{"tiger2-192", 0, 536805376ull, "bf0fda9bc451b7e534d074e7439d8ca891e036c86d9849490000ff1f00000000"},
	{"tiger2-192", 0, 2147418112ull, "b32ac449d404b7a49caf8ae4f36c395154e596dab4dcf44f0000ff7f00000000"},
	{"tiger2-192", 0, 4294901760ull, "a23d0c3b4a1af2ca9e0ac312ec14a404c88c9292a2858a8b0000ffff00000000"},
	{"tuple-hash-128", 536870917ull, 536870717ull, "73750cc1d1bd28d5b0743e67e2ddbd057f35fbb6c642690db251316cbe7d84732df48f5aac8e0234f4ac26673db87ff6cd6324e7eb7a8dc1a221a154e109332c7c41a13147be53316cf2f370416c8668d8ce361a01a23c46ee7598882de92eaff904cf9a5fdc3053c81011d7b4ffeea2cfe2bff12702ec2cb04bcc2da762a37f05c8f112bef77b4636f16d3687fbf9abcb5accb2e8e47e73c0377ce47045959888b6102a82997f8fa864e0d07d8705556f7de5528d58071df908f242d3fa16df8b3b76877b0866360b00000000000000"},
	{"tuple-hash-128", 2147483651ull, 2147483451ull, "509602c0f6d0224acfb4a5abd674c8abdb5484aa6427e06e72edc37effe0eefdf84ce00ad9e8c81b8b16fec5295af4bd1670d91d6a44473008a64331fd68df4886a8ae1abb9081362bd86f4f07463613504a0585826f88a17f173038533583bed6f36da2ee9e1d12ba39d7f73efbcf595ed428acdce02ce63c4b4d8d3a134718ad22deb2c2d97ff4625078c1b303aed2cfb8d0803ffff1fcf4fedcfa2208faa55f30edcae7297df03fd8fcdeddb73f9a88fbdb697f5ae16bfa1035a837661c952fde5dca0dc772206900000000000000"},
	{"tuple-hash-128", 4294967373ull, 4294967173ull, "85fac84b78b3207455c522d4025a9406c66b4b07b25841d515838b8043c19bc09e593ffe314d90ab807ac593b5e486a317ae4a67acdac71a3d812a8315966be56cac2a8d8fc27dff78325f81d664da22a28891f4686a7a86239cff2973cf48f305fcd3ef8df31f1a619d864a19e9c9de422c4d1a2932d3c3dd838a68037a4ffe887aae9fa7ef89a42de62b75b3625bbed5c82493e42086a3f60b1cd1fb433f611726512da3f930e48bd5b810ed2a5d73466fd468ecc984fdaf3ac85680517bb7320d0408237ea3048b00000000000000"},
	{"tuple-hash-256", 536870917ull, 536870717ull, "8a0e763ced07c6cdcb65e6732a3b01dc1c2d9b7b4101c9207472449b97af19366c4a9a2888ea808c456a447e930f19132e6366b416a2c9f9548856cfae7cafb766a6350d376c6063c88d3619dfbed0ed8b6b629d44deac891f580515173989a054287a62fd7a3d33d56b9cd17de940cf27b87ef213c6c14abea1a13ae6a52b3ceacad911f733de1c9351b029048b760139c05b4ff35d678cb8e606ca41fb950ce9ef3fe2b81672d546da667619344a8e2efe02c5b309ec1d481c291ef6cf409309dae4e36031f3037300000000000000"},
	{"tuple-hash-256", 2147483651ull, 2147483451ull, "da0885794c77fc21982670fe72cf5aa11ed29c5e830fb93be70425fa1ab51073873d05ad9acb78ec19206181f740c223f5facad9d9f1d4c4283d49849564177b8f8211c37be46a47a591e4f614f4b414e22861da50f181a22e1a29e28f2dade55640128e3523b5fc411798b6c9c1062cd40b90d962fa62489c31b608d20f4902aa017333a04276f5a6f44caee8e2d5a5d736d106baf79291da22bffe4ab2f34e7f4860c0353bdb0925ae855e4a254976c6376f019c456e03995a8b876c32ec498b384ddbdc7e77164900000000000000"},
	{"tuple-hash-256", 4294967373ull, 4294967173ull, "f37ff3450abc6f8c23b8769c83462223529142ba5dc7b1fb4890751f93aa54481dc2cbfaec49ed9bd844d908543b3bb32728fec60afcaee77749d10d7d43c270c91ef034bf47187b861669991caedb45e1fc94d3ce9df21f3abe0ba4f4676a6f9e7d2adda28a7ac12123ba8d3603ae6dd3f3aa0c3afa0bd3bfc2ef66a8bd52b344db2bfd1504f985f496a0db528efad345b38f7b29aabf91e8c6f6539313374f85a39ce91990131ce906b85e2f07b8c3898b3bee41a1f21bcd0d4183affa27370d172ba5847c089d0300000000000000"},
	{"whirlpool", 0, 536805376ull, "034c410c702e4cf431497a06065688c9b952ab4506aa4ec3d6886d809a549ac0fe0cc7bb8a884de2bef5b64486cf562fef1b9c5fff06121121a97b7f5136bc6e0000ff1f00000000"},
	{"whirlpool", 0, 2147418112ull, "d46c29666879d952937a7310676f1b8082fe302f011d2741f08abf72985379cb93a04f2ebba43802fc5c5fdaab8fc7a4afe9683fe0a8f983620801ece7e858990000ff7f00000000"},
	{"whirlpool", 0, 4294901760ull, "255d1db5e2847301031ae0774c1117ad9b40b60963bbf2c2c662c054148ac441cdcbf9dedccbe80c0b92c6747a6c23387fa44bcbd1bf9ab251227c6b42f3d4420000ffff00000000"},
