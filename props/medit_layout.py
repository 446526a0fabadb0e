"""Record layout of the sections of binary Medit files that meshio skips (libMeshb's GmfKwdFmt): (has a counter, layout) -> codes;
i7 = 7 integers, r2 = 2 reals, dr = as many reals as dimensions."""

LAYOUT = {
    (True, 'i1'): [13, 14, 15, 16, 17, 18, 31, 32, 45, 48, 52, 53, 70, 79, 80, 126, 127, 128, 141, 142],
    (True, 'i3'): [19, 21, 29, 72, 95, 129, 130, 135, 136, 139, 140, 143, 144, 149, 150, 153, 154, 198],
    (True, 'i2'): [20, 40, 44, 55, 56, 57, 58, 61, 71, 82, 83, 84, 85, 131, 132, 145, 146],
    (True, 'i4'): [22, 25, 73, 74, 133, 134, 137, 138, 147, 148, 151, 152],
    (False, 'r1'): [23, 78],
    (True, 'i7'): [24],
    (True, 'i10'): [27],
    (True, 'i5'): [28, 92],
    (True, 'i11'): [30, 90],
    (True, 'i28'): [33],
    (True, 'i2r2'): [41],
    (True, 'i2r3'): [42, 43],
    (True, 'i33'): [46],
    (False, 'i9'): [47],
    (False, 'drdr'): [50],
    (True, 'dr'): [59, 60],
    (True, 'i6'): [75, 93],
    (True, 'i8'): [76],
    (False, 'i1'): [77, 125, 155],
    (True, 'i19'): [86],
    (True, 'i15'): [87],
    (True, 'i17'): [88],
    (True, 'i26'): [89],
    (True, 'i16'): [91],
    (True, 'i21'): [96],
    (True, 'i36'): [97],
    (True, 'i65'): [98],
    (True, 'i126'): [99],
    (True, 'i31'): [100],
    (True, 'i56'): [101],
    (True, 'i41'): [102],
    (True, 'i76'): [103],
    (True, 'r2'): [163, 164, 165, 166, 171, 172, 173, 174],
    (True, 'r3'): [167, 168, 169, 170, 179, 180, 181, 182, 187, 188, 189, 190],
    (True, 'r4'): [175, 176, 177, 178, 183, 184, 185, 186],
    (False, 'r2'): [191],
    (False, 'r6'): [192],
    (False, 'r8'): [193],
    (False, 'r12'): [194],
    (False, 'r15'): [195],
    (False, 'r18'): [196],
    (False, 'r24'): [197],
}
