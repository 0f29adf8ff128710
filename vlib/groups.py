"""the published group structures of the SCALE libraries (eV, ascending)"""
GROUPS = {
    3: [
        1e-05, 0.625, 5500, 20000000,
    ],
    44: [
        1e-05, 0.003, 0.0075, 0.01, 0.0253, 0.03, 0.04, 0.05, 0.07, 0.1, 0.15, 0.2,
        0.225, 0.25, 0.275, 0.325, 0.35, 0.375, 0.4, 0.625, 1, 1.77, 3, 4.75,
        6, 8.1, 10, 30, 100, 550, 3000, 17000, 25000, 100000, 400000, 900000,
        1400000, 1850000, 2354000, 2479000, 3000000, 4800000, 6434000, 8187300, 20000000,
    ],
    56: [
        1e-05, 0.004, 0.01, 0.0253, 0.04, 0.05, 0.06, 0.08, 0.1, 0.15, 0.2, 0.25,
        0.325, 0.35, 0.375, 0.45, 0.625, 1.01, 1.08, 1.13, 5, 6.25, 6.5, 6.875,
        7, 20.5, 21.2, 21.75, 36, 37.13, 65, 67.5, 101.2, 105, 116, 117.5,
        187.7, 191.5, 2250, 3740, 17000, 20000, 50000, 200000, 270000, 330000, 470000, 600000,
        750000, 861100, 1200000, 1500000, 1850000, 3000000, 4304000, 6434000, 20000000,
    ],
    238: [
        1e-05, 0.0001, 0.0005, 0.00075, 0.001, 0.0012, 0.0015, 0.002, 0.0025, 0.003, 0.004, 0.005,
        0.0075, 0.01, 0.0253, 0.03, 0.04, 0.05, 0.06, 0.07, 0.08, 0.09, 0.1, 0.125,
        0.15, 0.175, 0.2, 0.225, 0.25, 0.275, 0.3, 0.325, 0.35, 0.375, 0.4, 0.45,
        0.5, 0.55, 0.6, 0.625, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.925, 0.95,
        0.975, 1, 1.01, 1.02, 1.03, 1.04, 1.05, 1.06, 1.07, 1.08, 1.09, 1.1,
        1.11, 1.12, 1.13, 1.14, 1.15, 1.175, 1.2, 1.225, 1.25, 1.3, 1.35, 1.4,
        1.45, 1.5, 1.59, 1.68, 1.77, 1.86, 1.94, 2, 2.12, 2.21, 2.3, 2.38,
        2.47, 2.57, 2.67, 2.77, 2.87, 2.97, 3, 3.05, 3.15, 3.5, 3.73, 4,
        4.75, 5, 5.4, 6, 6.25, 6.5, 6.75, 7, 7.15, 8.1, 9.1, 10,
        11.5, 11.9, 12.9, 13.75, 14.4, 15.1, 16, 17, 18.5, 19, 20, 21,
        22.5, 25, 27.5, 30, 31.25, 31.75, 33.25, 33.75, 34.6, 35.5, 37, 38,
        39.1, 39.6, 41, 42.4, 44, 45.2, 47, 48.3, 49.2, 50.6, 52, 53.4,
        59, 61, 65, 67.5, 72, 76, 80, 82, 90, 100, 108, 115,
        119, 122, 186, 192.5, 207.5, 210, 240, 285, 305, 550, 670, 683,
        950, 1150, 1500, 1550, 1800, 2200, 2290, 2580, 3000, 3740, 3900, 6000,
        8030, 9500, 13000, 17000, 25000, 30000, 45000, 50000, 52000, 60000, 73000, 75000,
        82000, 85000, 100000, 128300, 150000, 200000, 270000, 330000, 400000, 420000, 440000, 470000,
        499520, 550000, 573000, 600000, 670000, 679000, 750000, 820000, 861100, 875000, 900000, 920000,
        1010000, 1100000, 1200000, 1250000, 1317000, 1356000, 1400000, 1500000, 1850000, 2354000, 2479000, 3000000,
        4304000, 4800000, 6434000, 8187300, 10000000, 12840000, 13840000, 14550000, 15683000, 17333000, 20000000,
    ],
    252: [
        1e-05, 0.0001, 0.0005, 0.00075, 0.001, 0.0012, 0.0015, 0.002, 0.0025, 0.003, 0.004, 0.005,
        0.0075, 0.01, 0.0253, 0.03, 0.04, 0.05, 0.06, 0.07, 0.08, 0.09, 0.1, 0.125,
        0.15, 0.175, 0.2, 0.225, 0.25, 0.275, 0.3, 0.325, 0.35, 0.375, 0.4, 0.45,
        0.5, 0.55, 0.6, 0.625, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.925, 0.95,
        0.975, 1, 1.01, 1.02, 1.03, 1.04, 1.05, 1.06, 1.07, 1.08, 1.09, 1.1,
        1.11, 1.12, 1.13, 1.14, 1.15, 1.175, 1.2, 1.225, 1.25, 1.3, 1.35, 1.4,
        1.45, 1.5, 1.59, 1.68, 1.77, 1.86, 1.94, 2, 2.12, 2.21, 2.3, 2.38,
        2.47, 2.57, 2.67, 2.77, 2.87, 2.97, 3, 3.1, 3.2, 3.5, 3.73, 4.1,
        4.7, 5, 5.4, 6, 6.25, 6.5, 6.75, 6.875, 7, 7.15, 8.1, 9.1,
        10, 11.5, 11.9, 12.9, 14.4, 16, 17, 18.5, 19.4, 20, 20.5, 21.2,
        21.75, 22.5, 25, 27.5, 30, 31.25, 31.75, 33.25, 33.75, 35, 35.5, 36,
        37, 37.13, 37.27, 37.63, 38, 39.1, 39.6, 41, 42.4, 44, 45.2, 48.3,
        50.6, 53.4, 58, 61, 63, 65, 67.5, 72, 76, 80, 81.7, 90,
        97, 101.2, 105, 108, 113, 116, 117.5, 119, 122, 143, 170, 180,
        187.7, 188.5, 191.5, 193, 202, 207.4, 209.5, 220, 240, 285, 305, 550,
        670, 683, 950, 1150, 1500, 1550, 1800, 2200, 2250, 2500, 3000, 3740,
        3900, 5700, 8030, 9500, 13000, 17000, 20000, 30000, 45000, 50000, 52000, 60000,
        73000, 75000, 82000, 85000, 100000, 128300, 149000, 200000, 270000, 330000, 400000, 420000,
        440000, 470000, 492000, 550000, 573000, 600000, 670000, 679000, 750000, 820000, 861100, 875000,
        900000, 920000, 1010000, 1100000, 1200000, 1250000, 1317000, 1356000, 1400000, 1500000, 1850000, 2354000,
        2479000, 3000000, 4304000, 4800000, 6434000, 8187000, 10000000, 12840000, 13840000, 14550000, 15680000, 17330000,
        20000000,
    ],
}


def same(g, k):
    p = GROUPS[k]
    return len(g) == len(p) and all(abs(a - b) <= 1e-9 * b for a, b in zip(g, p))
