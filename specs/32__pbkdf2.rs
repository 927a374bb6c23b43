// ---- known answers: RFC 7914 section 11, and two computed with another implementation. Written by tools/known.py.
pub proof fn sp_known_pbkdf2()
{
    assert(sp_pbkdf2(seq![0x70u8, 0x61, 0x73, 0x73, 0x77, 0x64], seq![0x73u8, 0x61, 0x6c, 0x74], 1, 64)
        =~= seq![0x55u8, 0xac, 0x04, 0x6e, 0x56, 0xe3, 0x08, 0x9f, 0xec, 0x16, 0x91, 0xc2, 0x25, 0x44, 0xb6, 0x05, 0xf9, 0x41, 0x85, 0x21, 0x6d, 0xde, 0x04, 0x65, 0xe6, 0x8b, 0x9d, 0x57, 0xc2, 0x0d, 0xac, 0xbc, 0x49, 0xca, 0x9c, 0xcc, 0xf1, 0x79, 0xb6, 0x45, 0x99, 0x16, 0x64, 0xb3, 0x9d, 0x77, 0xef, 0x31, 0x7c, 0x71, 0xb8, 0x45, 0xb1, 0xe3, 0x0b, 0xd5, 0x09, 0x11, 0x20, 0x41, 0xd3, 0xa1, 0x97, 0x83]) by (compute_only);
    assert(sp_pbkdf2(seq![0x70u8, 0x61, 0x73, 0x73, 0x77, 0x6f, 0x72, 0x64], seq![0x73u8, 0x61, 0x6c, 0x74], 2, 32)
        =~= seq![0xaeu8, 0x4d, 0x0c, 0x95, 0xaf, 0x6b, 0x46, 0xd3, 0x2d, 0x0a, 0xdf, 0xf9, 0x28, 0xf0, 0x6d, 0xd0, 0x2a, 0x30, 0x3f, 0x8e, 0xf3, 0xc2, 0x51, 0xdf, 0xd6, 0xe2, 0xd8, 0x5a, 0x95, 0x47, 0x4c, 0x43]) by (compute_only);
    assert(sp_pbkdf2(seq![0x70u8, 0x61, 0x73, 0x73, 0x77, 0x6f, 0x72, 0x64], seq![0x4eu8, 0x61, 0x43, 0x6c], 3, 40)
        =~= seq![0xebu8, 0x23, 0x51, 0xe2, 0x17, 0x4c, 0xc5, 0x08, 0x1e, 0x9b, 0xf7, 0x9f, 0xae, 0x11, 0xa9, 0xe1, 0x71, 0x58, 0x65, 0x8a, 0x08, 0xd4, 0xe1, 0x6e, 0xc8, 0x98, 0x3c, 0xc2, 0x71, 0xab, 0x79, 0xb4, 0x52, 0xab, 0xeb, 0x28, 0x2c, 0x4c, 0xea, 0x5c]) by (compute_only);
}
