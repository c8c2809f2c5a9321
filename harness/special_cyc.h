// generated by bin/gen_special.py: cyclotomic elements with a vanishing compressed coordinate
static const int nspecial_2 = 6;
static const char *const special_2[][12] = {
	{"1731278ca60601a1c81429d6647a29162b53dd88cc6fd1ceac8ff0a88b33c486","1a7a057dd6e2ec0be2a0eb649b17c3750293c809e0d436d903f512a328787784", "1e93c972f7b6770a05542405c5a960220a4e57bae763d2ebf796f2d35d58df7f","1100ff7129c8e344044b20297abd4eebe9d4c14d28e81d649e542aca076a8b10", "12466693c342b0914ce70ed4e20a8dfe57d0607d159a0e480db7a274ef3e3ec8","20a8f237d18b348a2b50632c53556273a5d5eb99fe1aeb5b32c4d50c21916738", "0","0", "17cd6bebd4ddeab3e42530efd6a0c3570fba938c5fd3c30de6b0a6e1758e30a1","24fd910d9bdeaecc24f0d48a5686ebf14439ba69d1f7ad8dfe4f9eba3184489c", "18c6a54411011af452d076b49a9385079d7f09d55f873ba7c1aebf6c44f5735b","9b5d42a90daccc74f0f69ba3749de0ca6c33adbe5f6580ce551b9b8b07cd364"},
	{"72d40746b20c94e4c99a075d792e650803cd8f52039206af5e585714f51779b","71456ed9ccdf4024ac1774a78c23e2d14f71cc19124d8615ffd95069d7d9bf", "1ac6e55ea96909fa5b04ab9a385c6779d09b396afac7b856bcb33c12241a03ef","2e166321bac7982fe3e1eaf6750b04060dc335f0cca1be58326301630e91706", "1e9b95d280e63561c14362f0150b706fde543c55656d8b622e7198353ad81772","7acd5c67d518ebfdebd2440578d9f875f946cebdfdb92bdbfb13b3b19b3f4cf", "16d8e4e9e8cd9edbe343e217432112bd35b9ee6fef5922b92b3e3ef8db2a01e","12282ad96ec858fedec23e7438ebf1605b287679fb2031b70bfe6e99075dd676", "20ad7e4310894e9470155578301aa2dc57a1f297c65ca4c2a8e71795060152de","1207ef9668c6da341f45c2e65f9fe75e06e4b7e1b07b18acd434074899130ac8", "96ca2ffffe8c1be46b7bd29033d328c5f8310be63240565782482f5351a331","23940e2809ddeba75032cd8ec4158ee73440cbcb0c99e2685a18a9b745102e6a"},
	{"11c6238c8aea2f91ab8e41edc6d47ecfa4ada688f8ffa55be8a2131c64998d51","2b6d09f8dee73fffefa974beac248338033e18e34d91fe7bc54e5029c71f370", "21b3187cd5bee2959a5bf60b9ff4699139873918e5fef5b218ba013dd8fed197","764f9993431e40551436a5bdffec8c6a2413585fadd3b2b669dba15113cebca", "9dd006d93718751f3cf4e1dee2f3a8523c96a525a177d49678a7be0abe5a4a0","1c64bc8ba72e5c168a3747c4bce04ea2f0586659414fddbc0733d168f774d340", "2285a0ac06f3694a22ac9bcdec85fa009f436533ebb3d3f1f1cd5d1f4a4776f","50ed3130dd485694040f7ae0a43186e2e790b16ea993fc049722e133bc527a0", "d168dcd1591b97e36e3807c64fc48461460f6d6a9ead6ad4e43979aa8aeb994","ab18f04aebaf9333689902bbed9897f61f6033edd93b3d47e9a0d69280894c4", "52a9cc0fee02d8041d77639c7dc003115b2d3f2e5a734462c74cf54766d70a0","161a85471eda1a7fcb4a635249c65475681a910d7d78896790b09bbae27966d1"},
	{"16b0d9489f81cc5d27fbdf69a50524f8724ff3991e5a02b24061b3eb6a3ab51d","11b60175bcb6a0cd38206153dd27b29cf0219c69092c180cadbf38ed1820cd0d", "1dc864c40e9dda4715aa0fe6a56fbb8031ddbd4ffd9d9c506ba1a3b107554e4a","1c80d00092ba01109f27fac90fd67c2bb97ee1965764ea3427322fe0912eae5", "c8cc8603a1e23bce05df5c1a6429c0f976ed4713ce65dd592a48df3588fb83","1d0dcb118d212db1536627adef9bc3fecc8fa32724307e3d3d5a73528d35b5a3", "1e3a0457775185afa7a7ef7fff05349361d979093fd89536f55806f5149a837a","18146187ae28f9053e44e53c036769a122b582df20f17c8735f64a55430bb754", "10ef645bd9fdfac3735a9eaa26dec73a913352dc05ec3129fd89f84a6763a6b0","1cba6e0fd2e796e4560ed0484f9c24709abd7767fe5dffaa5e94c3bbdeb94f68", "38e9b0fdccfa925a0cf554a8175f0af7794bbec4e350e6c8d48c5f98b8a151b","3cf43b0977a2aaf514fb190b9f45c5e73ff255293b0042feb23cbb733d8c7f9"},
	{"13ea5335350614523b175aa9bfdec6858088a89a577b3b3dcf4803e98eb8c9f3","109c01efaaf66a071931911e901dc3e46fb17fe33ea1ab0056ba9d53aa67696f", "27b8b3dc4a29aba225b82c78b35adcc5bcdc9a9cd344152fdf17a2ae0ae46bd","14cda8a2c090b77f75e3e7359f54d2cf08b0d449af61dae1ffee528a3b31249b", "1858256f15205480742be58a5a2004ea78fd5e600bafad3feae6d1c32c1c5249","922169f60b89a6a3b115b2398453a7debd8f21e0d4ba7f9233b7003f3ce2d91", "2000a4ab032759c87618f8c1c444c952aff677e99de029493d19980b06302710","222c78c86cbdb87d309b5329e3a1a06823deedbf3861ef241280d8c868668d54", "17a99192b9987d805de08803352e50b5ff30d980ea72753c2b3d91082d64dbce","21e94d37423f618e5731f80a9dfe4898b4a6081296fda9de3bf452e5b45df153", "ccef29db7765e62678b49bef6ce88e3894c77a3417eec3b6494fea26285561f","bd5bee889ac1f379fc98c0239d51c63727b4c2916287d005f8637b9d8aa9595"},
	{"1f251f28013457d4c958d80246e9f2dccd5387e7ae9586ba194b93aa0b1983a3","aeb7a177b1500b38deb1c7951ee3b1e343a5ee34dd5bd974898bcb10d27d47d", "23a704ba5e3bac21b0f3cf56118dbcf7bda02072040984e9e77a45121fd74979","ba8a073d8e506a251c5f39999cc74592ae3d7748c86b88a0e9b12b1da1d41bc", "4fa59b47409effe97c989c7582353749415f0e817d45616941268ddb2e6a9c6","39c1f1753c43a277f17894c12eeb6eeb98798ac37aa32d86744fff243ee256e", "1e5da66e4399440d43fe542fa5037f0f5704fd5e2f80be2df9b16401f6cd9a6c","10649975bdf5a902cd25c6132d5b8c08231e8ea67f0594ff11e24233c701c184", "1e662597d1e38fdf665c70ebb35876d2cee47ae5c8f4e44db9a574552d98ba5d","1577f7b9ac1a8739e581dcf16dcde6db1f47f2688e735c10862d06873916e4bd", "0","0"},
};
static const int nspecial_3 = 6;
static const char *const special_3[][12] = {
	{"2275c8bc524a5cf93159f78b110599fbf10d1e7c057dc2654857d04892deb3cc","2c1098a552c24a2520ceb994d4d5505886e5fe42ba2890003773f0a5db22f584", "1a97bdb242464794d8c6e44422d825932d99ade294d1f40bba468dd46b2d705f","17422a88a398efec1bbf21a4b8fa9efe38b4a483771aa4388738f535977b6f26", "362c712a6b5c9a6991b6109b9b913bf29bfe9b5261b7b3895c2c57ced8bdbe8","1de7585802affb4a1ef43e765b808a3cfd46a0d096c8341e0f078ffb2c33960", "0","0", "2d2c5460cdfb6908c94dab2715cf66368cc7e229dd0008148237e7ba7d681c4d","26944374b2fc5537594524236e27448ef6dace8fcf2b14f5c3a7bfb6022468eb", "79f8290e39d5bcfa5a706359f8418d72d132da3f4b7981e5c46f71e80b3157e","88f9e913049af9cc63ed89f6223d0e6741de35fdf51910318c02a814099fb5"},
	{"b0ac18ddeedac1045f6a24a3f2f5ab9b486241da54d5788769c3e702ea432e1","17acf3c504f6eb7fc67bb6a70bb3773a0c7634d0e163efa463ec4263d2e390ec", "11604fc74eb76af37b07a7a7836329766514eadc06475d9c00f6370482e04f25","268c9a7f954534125afb410e65fe14400366477eb42f139296e6f2e95ed81f0e", "28292f729914d1d030546d43c05fafc377327f6048c29dd7f6455d21eaa69b9a","25925f0a444ca759a309c07d5798b59fbb7d4b147d40e05209071a349c4005b", "1a1b3f3ebe066488f4498816eb65495624fc5d3edc1afbe9760d14ba55b5aace","74296e2b56b50344071106664aa8758383a1fd7c1fab32359291b77210f126c", "250cad55b3c36bbdc3d75a18b66fadd9625fb1848ad39a65eec0cf95946249e7","1b09d072e292fc799403157febe683440aa40ea70c902d330980c176a072dcb", "1823f08a39664dda0ab0a50464b850084a6dca4fd4fdd59186ee792afe3e2334","17ce6319de26ba5aa4c8202684aefc80bb686ced646bd7417768ba5a11d6a263"},
	{"891d6d0ec8edd5f3c763b8a48e775d618d6451b69c5c14174a8e345cdca7767","ce48207c7e37d114c3bfb7b35edca2bf664286d801b924cdc6860447434f60b", "130f0f43ee7c87d81c9437932a579edca64d5146157eb75982e74acd2a5109ca","15ccfb3d947205f9b29e9fba643eee7487810f615ab70833ecccc991598c84a2", "1f43b8d5ce20a1fe609a7262dd09fe8d059dbaf74fc2f57f685b6a7591a9d6bf","1d355ffaf853121b8be84f7a6b5a1dde44f2c57fb69cd06ac2b72f754320aef9", "1eed61c36766367914ded1520acdc9176c9dfc4361d2bb6bdb1e254838742dcf","2bc9302191ea1c54065d5215e38e14092b42afcd683ba3ff26be2b4f94cb9549", "26e526d7009b9ed8f99927020d666230f82fc3692803c5ea5141571fc38a9e","239d44ce9aa23290ba2d79bab2629c8203eaca87b439f7d300c567462c179744", "12688aa8c26d9eba0dcb2a5c814628c4c06fb171a9bdc3cd30b5edf3d67101ec","217da9af8d292704888fbefed9d696682b9a7b079e9b3ed8d10ac41efae4aad4"},
	{"7af553f79847b0ca068926b72680a19736008b74ada85d3834504a3adcf0fdd","1a211a2b7bef53db2020c373e4b91835d9dbd3906c3d39be01355d9df2ffbbfe", "3b984d77837fba421b3ec6a56f4e65102ed7f6411d238dcac1a1e8953a4765f","8a1435e9bc19ed4216ce7670d601b8899467477ce2d1e8612f7f434e49466f", "30078ea861636f062d7e9b40670151ff3fc17da98927a58b0ec8b9ec7d05222b","2e9c5b9982ce33b6e10e29bade586d17e85afebd004fd39d6e017b15c177cb36", "1061e603f0b9e7605077ad3974f57ca2821add171f97e74eb198adfa44e8523c","2f7c18040ca55840e50e4fa2d62a71f060b20ff4ad3d049222d13e62dd9f6bf", "14fea4cb0d016d6178cf59412ec0358e30a00bffa4866a7b0e0155e09cc074c6","76b54c2fec7a3c2166f881eb83c650635e3b08cc2f14899ec25a5edcb7d42ea", "12cf8bf1975ddeda4988e2d2753796b730d0266b58a934cc219c1282883b12f7","28fc06800da2b8387b2620b19318fb13e5f6bcb83b4968094b41b57b93fef3b4"},
	{"2b38405087a788912eeea7f33954ae4ca76b1d1f941d5056b4b689bb15ca0c33","730685805761919d5b9f500292ddc43968cec6c6dcd868d3908bde2c84712be", "a89948fa01be4bf7dc92c184387d054f86487d6a05298410033d0da1b7f0a80","1258d4f8a5221fb75550626159ee6290fd86feec27aeb1dd872b618166411f12", "8359a8e22d1fd968cf945f6ea37b70126c0904145ad0109b23e741b7197e55a","2c1f2b5ab7fb293666e8b23086640c84c4d3df79b39852542a3e1c7093cb179c", "d44064c39181a6fc952ab4a917a8fdbdd4a04f81fbf353667cdaa80f182525b","67fec3aabc71df11272edd2511aad5ac2cb542a48dada8700c5d8343e0d8b8b", "24a156575174f1b02b975927924b876cbbdcd7608cbb23753cb1055889230587","8875abf9740fe0707d3ef155e58a31b1237c3f695ee3ff53fb1f302f9590ee3", "2e229f4bca0493e45e03262f23cbc60c0361dcbffcb9e11ce4f1d1c81421d3e9","2ad5d3f9c689e46b71984a343f82ccd807cfde36f45d921da76ec91e97d56663"},
	{"208b030e9c8c9dde4d5bed8ecb1f69ab99e6ab0e5a3bcfa127c26054714614e1","4c1e272fabe32136cd917717bf4f697698666afa9b2d2661158fd745ebc76fe", "cf4c8edd0fc6cd02d4b60c4e89536d2e22328f3ce0beb3827225704e3147c20","52920b6a41bc97464b578766cadcf08ba3a12bb4c684fbd9be0cd1152ee1a97", "29791be8abf582a3cf00a46e0e81cd154ee03ccfa3f3f621b209ab880658e570","ab1e5a3ab3e039142c0ff26409a8078089dac66a22a3ad7687ad5b07851a98f", "2c7a2ac9e5a78ccba2e6d76f3eed2a139a64fa8f230bb1625316eda0be1b9549","6353fe929ed147eef5f8f91e90c73f699090fa9e7003a1a59691f0c511732ce", "174b0419434e072e3e0204d8432740ea5f6e1b50525a181225c7b0328191774d","239be03d90efce7475da6f1e5c97b82af045ad8e39645f2d41101a7857eb645a", "0","0"},
};
static const int nspecial_82 = 0;
