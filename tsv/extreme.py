"""made by tools/mkextreme.py: {set: (secret key, [(checksum, number in the last FORS node)])}"""
MSG = b'extreme'
EXTREME = {
    'sha2_128f': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f30a3356a1283ac92dcae6a36960ace2600',
        [(105, 4510011), (113, 1345463), (114, 6078086), (116, 2143419), (372, 8254861), (368, 658195), (367, 3639434), (367, 1218541)]),
    'sha2_128s': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f30678b5043fe6b4cfbe8b8c7b5df14744e',
        [(112, 3968996), (113, 6297251), (114, 4672579), (115, 2603701), (391, 2355944), (370, 4511831), (366, 405207), (365, 3660879)]),
    'sha2_192f': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f4041424344454647488c268c0b53d43680487fe962bca0399434aff9f8a46ded58',
        [(197, 500733), (201, 1893675), (204, 4050681), (208, 8370459), (517, 1269250), (517, 61389), (514, 6155743), (510, 6068796)]),
    'sha2_192s': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748c5cdbd21903e890787ce5698f66de9f2ca2d771e6106e99a',
        [(191, 3500208), (197, 7763825), (203, 2830172), (205, 8046021), (517, 141855), (514, 7548879), (513, 6570547), (513, 1673188)]),
    'sha2_256f': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60897ee6914231d704c28275a3b2722111bce977b0206306f889d80f7ff62318c8',
        [(290, 74443), (292, 633433), (299, 1106029), (301, 4770988), (669, 2038775), (664, 6221636), (664, 3476087), (663, 970316)]),
    'sha2_256s': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60722fad85945063917fb80cf98b54a282a09bd503009746ca412276d4e35c30ad',
        [(282, 413692), (296, 3279648), (300, 3463004), (301, 2801492), (673, 3680486), (672, 3290925), (663, 6905338), (661, 8248282)]),
    'shake_128f': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f30fb9a32a81bd1de242fe5406f7d3a6245',
        [(102, 1765896), (109, 852008), (111, 6397330), (113, 6295141), (367, 6595165), (365, 3230541), (361, 997447), (360, 6157467)]),
    'shake_128s': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f3057d9c82f8e329f8b81b9c6b7da72cd62',
        [(104, 7064823), (114, 4712314), (115, 1782896), (115, 3348745), (378, 3689669), (368, 4123584), (367, 7937601), (366, 6577862)]),
    'shake_192f': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748eef90261d5153f5e8b5449d2422eca4741bc31f9c477229a',
        [(197, 2615568), (201, 6943079), (203, 6802359), (208, 4788907), (544, 7329912), (515, 2588888), (514, 6830678), (513, 6049381)]),
    'shake_192s': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f40414243444546474808ed879a70142f8d377cd4e8008f50b75efecc7fa14b42d0',
        [(193, 7243587), (197, 6074018), (202, 419379), (205, 3956828), (518, 3731378), (507, 5389270), (507, 4786618), (507, 4054466)]),
    'shake_256f': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60b95c667440410312f5786baf58e939f7fd14c125175410b227335b280589d450',
        [(294, 4899188), (294, 7682708), (295, 5513886), (297, 6223040), (669, 4954336), (669, 1874920), (662, 5936733), (661, 5170104)]),
    'shake_256s': ('0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f202122232425262728292a2b2c2d2e2f303132333435363738393a3b3c3d3e3f404142434445464748494a4b4c4d4e4f505152535455565758595a5b5c5d5e5f60a7f78470e97d7e8302b85bac0d5aadb3723cbc3ff48e9f34c81fc285b0c3a0b3',
        [(288, 5748796), (289, 300743), (298, 811497), (300, 4189837), (679, 5565680), (674, 6331839), (667, 5741875), (659, 4817832)]),
}
