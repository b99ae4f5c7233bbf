// Generated by tools (see DESIGN.md): literals of every compile-time macro, evaluated at run time so that a bad one is a panic.
fn literals() -> J {
    let mut out = Vec::new();
    macro_rules! lit {
        ($m:ident, $t:literal, $s:literal) => {
            out.push(J::obj(vec![
                ("t", J::s($t)),
                ("b", J::s(hex($s.as_bytes()))),
                ("res", total(|| sia::$m!($s).to_abs())),
            ]))
        };
    }
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db3a");
    lit!(address, "Address", "3460BE31201E69FEDAA0EEE8B9997F5C7C2999FDAFE593253CD654AF4DFAD71435629410620C");
    lit!(address, "Address", "27A0Aeb3fEE9232f8AF2211f9ee491c5B10BEcB5563bfc1E6f93427eCBC8fE29AdAb70FeB768");
    lit!(address, "Address", "b672A872637Acd7466fCb60e0E8Ff18463B0E4B2ba29703474f064Ac68f700f504968a5CA6D9");
    lit!(address, "Address", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C30ee485ebda1d");
    lit!(address, "Address", "20e2a6668de7f47e8467e546d53ec8e2a1257bdb256c9b3e4fbb498146ef7030ebb674cb8440");
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db3");
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db3a0");
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db");
    lit!(address, "Address", "");
    lit!(address, "Address", "g54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db3a");
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5G95650410db3a");
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2/d91e3f721fcb1971174494d6493c9d5c95650410db3a");
    lit!(address, "Address", "a`4dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db3a");
    lit!(address, "Address", "a5@dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d5c95650410db3a");
    lit!(address, "Address", "a54dca182530bb1d6d132cded6237b2ed91e3f721fcb1971174494d6493c9d:c95650410db3a");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad841735");
    lit!(hash_256, "Hash256", "81569969E58B081006F7E3DFC967A64CB14028D512C9791E558E08BAA7196B50");
    lit!(hash_256, "Hash256", "ac2F86702824c1C099724caF4941D4072014B3ce107F80E222F828767efc2F91");
    lit!(hash_256, "Hash256", "2BD818319478da6bD0C621de49f145Fda9988C79Fc35526F7eAed46725A2A7b8");
    lit!(hash_256, "Hash256", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad84173");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad8417350");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad8417");
    lit!(hash_256, "Hash256", "");
    lit!(hash_256, "Hash256", "gf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad841735");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad84173G");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca9237328815/4d8c4fa2815d2802827283e0ad841735");
    lit!(hash_256, "Hash256", "c`575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad841735");
    lit!(hash_256, "Hash256", "cf@75dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad841735");
    lit!(hash_256, "Hash256", "cf575dcad6ba2b0aee0ca923732881584d8c4fa2815d2802827283e0ad8417:5");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea32");
    lit!(siacoin_id, "SiacoinOutputID", "5A65E19CBAE530282BD36CB9D21F6BE6ABF0D7C1C1E21862AB8A18A8902073FE");
    lit!(siacoin_id, "SiacoinOutputID", "c8df4F50947AAEb26C57D21Fa5D328263DFE574De739988B886E7577496a2C87");
    lit!(siacoin_id, "SiacoinOutputID", "0D5D32Cbe54014C2B54b95523cF6941fa1c257C6f561C5Cb347611A3CE9d97dC");
    lit!(siacoin_id, "SiacoinOutputID", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea3");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea320");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea");
    lit!(siacoin_id, "SiacoinOutputID", "");
    lit!(siacoin_id, "SiacoinOutputID", "ge8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea32");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea3G");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc609/6f6967e7893f57fd14c1604d115cea32");
    lit!(siacoin_id, "SiacoinOutputID", "9`8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea32");
    lit!(siacoin_id, "SiacoinOutputID", "9e@a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea32");
    lit!(siacoin_id, "SiacoinOutputID", "9e8a7f770d9106fd287db7f1adbc60926f6967e7893f57fd14c1604d115cea:2");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801b");
    lit!(siafund_id, "SiafundOutputID", "EF750110C57513064D6D59291F0CDE2E5738713A818D8962058765A6CA7CFF00");
    lit!(siafund_id, "SiafundOutputID", "d796C25410335b400141212b62c376631129F34369aaD80b891bAf90d0D3bf16");
    lit!(siafund_id, "SiafundOutputID", "447aB57a683536c4499d863386CE10CD79E048c07dD7753eDa83D7c58DfE0D5A");
    lit!(siafund_id, "SiafundOutputID", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801b0");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c80");
    lit!(siafund_id, "SiafundOutputID", "");
    lit!(siafund_id, "SiafundOutputID", "gbe38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801b");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801G");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb1/f71010b93b7d946bf54074e3248c801b");
    lit!(siafund_id, "SiafundOutputID", "1`e38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801b");
    lit!(siafund_id, "SiafundOutputID", "1b@38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c801b");
    lit!(siafund_id, "SiafundOutputID", "1be38cb8cb4ba2e751989a01749ddb14f71010b93b7d946bf54074e3248c80:b");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f50");
    lit!(contract_id, "FileContractID", "5AEF9EBDD25B001A3FF416D4A3BAF69DAD8199BFCA8B6F3A6A9421CC1C93016F");
    lit!(contract_id, "FileContractID", "1c4261E5351d30B49895D1A0d1F13dcE20c4Fd32f640D0032634F087E51b429f");
    lit!(contract_id, "FileContractID", "fB2FC6791ce680CE2b27c8Af6666259Bbc471FB3be24A0B80316f688D3E481a6");
    lit!(contract_id, "FileContractID", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f5");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f500");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f");
    lit!(contract_id, "FileContractID", "");
    lit!(contract_id, "FileContractID", "g8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f50");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f5G");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983/75eb46c5296f62e338d74ff1fe4f7f50");
    lit!(contract_id, "FileContractID", "c`d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f50");
    lit!(contract_id, "FileContractID", "c8@5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f50");
    lit!(contract_id, "FileContractID", "c8d5f08b79affd2b49c12a4b0062983475eb46c5296f62e338d74ff1fe4f7f:0");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e09");
    lit!(transaction_id, "TransactionID", "5BD1D6854575622F856469602D1BA9F20DF4875B15B0BE23B7AC193FE0407275");
    lit!(transaction_id, "TransactionID", "5398003680E7E3b35183EF8333c4774EC50CD1c1bac7aDac1A4B7D0B352aD607");
    lit!(transaction_id, "TransactionID", "052bE1Ceb374dAB4683f84D30d3fc4D83CEE9B9bcca0fCe9594dc72AA7a6D001");
    lit!(transaction_id, "TransactionID", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e0");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e090");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e");
    lit!(transaction_id, "TransactionID", "");
    lit!(transaction_id, "TransactionID", "g02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e09");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e0G");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f/aef3416f9386bd8773c9d51940ea4e09");
    lit!(transaction_id, "TransactionID", "c`2eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e09");
    lit!(transaction_id, "TransactionID", "c0@eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e09");
    lit!(transaction_id, "TransactionID", "c02eaa7f3b4a715e4e48dd74089a58f3aef3416f9386bd8773c9d51940ea4e:9");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf072");
    lit!(block_id, "BlockID", "55BC509CB3ACAC23DB7C6E9B7D180A4742684EE75BB6CC69F67E48EB7C64328C");
    lit!(block_id, "BlockID", "0490c257a632b96292794c9bce4850bBD0e7CB3593871c15D694c1957f8Db039");
    lit!(block_id, "BlockID", "4eC6390bf61189639E35AeEB95210ef2A83FDF6a0B29872400c49b5539ac5ba7");
    lit!(block_id, "BlockID", "00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf07");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf0720");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf0");
    lit!(block_id, "BlockID", "");
    lit!(block_id, "BlockID", "gf846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf072");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf07G");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6/c017c1e1777155a0e9d8f27c7d9cf072");
    lit!(block_id, "BlockID", "5`846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf072");
    lit!(block_id, "BlockID", "5f@46d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf072");
    lit!(block_id, "BlockID", "5f846d34530325fed10a47b851832b6ec017c1e1777155a0e9d8f27c7d9cf0:2");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "ed25519:BA0837BBF1B3BA3178B6E0E30F328549C488E00A4FF1125CF5EC72BA694165BE");
    lit!(public_key, "PublicKey", "ed25519:AEcbA0Afa707E1448c828B4136D3B97429AB7BCA1aAFb77b4460eCec9524998A");
    lit!(public_key, "PublicKey", "ed25519:04642BBDb4a78f19E8B8480f3B47c20431658b4550b7eF6Bce6A0302CB17cdC7");
    lit!(public_key, "PublicKey", "ed25519:00ff0ff00123456789abcdeffedcba9876543210ABCDEFaBcDeF7f80a55ac3C3");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b50");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263");
    lit!(public_key, "PublicKey", "");
    lit!(public_key, "PublicKey", "ed25519:g9a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263bG");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e73/d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "ed25519:4`a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "ed25519:49@067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263:5");
    lit!(public_key, "PublicKey", "ed25518:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "ed25519;49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "Ed25519:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    lit!(public_key, "PublicKey", "h:49a067e24bdb7ec83756378368f7e732d2e433ec56f24b1c71b106e934d263b5");
    J::Arr(out)
}
