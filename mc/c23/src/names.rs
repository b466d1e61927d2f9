// Generated by tools/gen_c23.py.
use stabby_abi::typenum2::*;
pub const NAMES: &[(&str, u128, u128, fn() -> &'static str)] = &[
    n!(U0, 0),
    n!(Ux0, 0),
    n!(Ub0, 0),
    n!(U1, 1),
    n!(Ux1, 1),
    n!(Ub1, 1),
    n!(U2, 2),
    n!(Ux2, 2),
    n!(Ub10, 2),
    n!(U3, 3),
    n!(Ux3, 3),
    n!(Ub11, 3),
    n!(U4, 4),
    n!(Ux4, 4),
    n!(Ub100, 4),
    n!(U5, 5),
    n!(Ux5, 5),
    n!(Ub101, 5),
    n!(U6, 6),
    n!(Ux6, 6),
    n!(Ub110, 6),
    n!(U7, 7),
    n!(Ux7, 7),
    n!(Ub111, 7),
    n!(U8, 8),
    n!(Ux8, 8),
    n!(Ub1000, 8),
    n!(U9, 9),
    n!(Ux9, 9),
    n!(Ub1001, 9),
    n!(U10, 10),
    n!(UxA, 10),
    n!(Ub1010, 10),
    n!(U11, 11),
    n!(UxB, 11),
    n!(Ub1011, 11),
    n!(U12, 12),
    n!(UxC, 12),
    n!(Ub1100, 12),
    n!(U13, 13),
    n!(UxD, 13),
    n!(Ub1101, 13),
    n!(U14, 14),
    n!(UxE, 14),
    n!(Ub1110, 14),
    n!(U15, 15),
    n!(UxF, 15),
    n!(Ub1111, 15),
    n!(U16, 16),
    n!(Ux10, 16),
    n!(Ub10000, 16),
    n!(U17, 17),
    n!(Ux11, 17),
    n!(Ub10001, 17),
    n!(U18, 18),
    n!(Ux12, 18),
    n!(Ub10010, 18),
    n!(U19, 19),
    n!(Ux13, 19),
    n!(Ub10011, 19),
    n!(U20, 20),
    n!(Ux14, 20),
    n!(Ub10100, 20),
    n!(U21, 21),
    n!(Ux15, 21),
    n!(Ub10101, 21),
    n!(U22, 22),
    n!(Ux16, 22),
    n!(Ub10110, 22),
    n!(U23, 23),
    n!(Ux17, 23),
    n!(Ub10111, 23),
    n!(U24, 24),
    n!(Ux18, 24),
    n!(Ub11000, 24),
    n!(U25, 25),
    n!(Ux19, 25),
    n!(Ub11001, 25),
    n!(U26, 26),
    n!(Ux1A, 26),
    n!(Ub11010, 26),
    n!(U27, 27),
    n!(Ux1B, 27),
    n!(Ub11011, 27),
    n!(U28, 28),
    n!(Ux1C, 28),
    n!(Ub11100, 28),
    n!(U29, 29),
    n!(Ux1D, 29),
    n!(Ub11101, 29),
    n!(U30, 30),
    n!(Ux1E, 30),
    n!(Ub11110, 30),
    n!(U31, 31),
    n!(Ux1F, 31),
    n!(Ub11111, 31),
    n!(U32, 32),
    n!(Ux20, 32),
    n!(Ub100000, 32),
    n!(U33, 33),
    n!(Ux21, 33),
    n!(Ub100001, 33),
    n!(U34, 34),
    n!(Ux22, 34),
    n!(Ub100010, 34),
    n!(U35, 35),
    n!(Ux23, 35),
    n!(Ub100011, 35),
    n!(U36, 36),
    n!(Ux24, 36),
    n!(Ub100100, 36),
    n!(U37, 37),
    n!(Ux25, 37),
    n!(Ub100101, 37),
    n!(U38, 38),
    n!(Ux26, 38),
    n!(Ub100110, 38),
    n!(U39, 39),
    n!(Ux27, 39),
    n!(Ub100111, 39),
    n!(U40, 40),
    n!(Ux28, 40),
    n!(Ub101000, 40),
    n!(U41, 41),
    n!(Ux29, 41),
    n!(Ub101001, 41),
    n!(U42, 42),
    n!(Ux2A, 42),
    n!(Ub101010, 42),
    n!(U43, 43),
    n!(Ux2B, 43),
    n!(Ub101011, 43),
    n!(U44, 44),
    n!(Ux2C, 44),
    n!(Ub101100, 44),
    n!(U45, 45),
    n!(Ux2D, 45),
    n!(Ub101101, 45),
    n!(U46, 46),
    n!(Ux2E, 46),
    n!(Ub101110, 46),
    n!(U47, 47),
    n!(Ux2F, 47),
    n!(Ub101111, 47),
    n!(U48, 48),
    n!(Ux30, 48),
    n!(Ub110000, 48),
    n!(U49, 49),
    n!(Ux31, 49),
    n!(Ub110001, 49),
    n!(U50, 50),
    n!(Ux32, 50),
    n!(Ub110010, 50),
    n!(U51, 51),
    n!(Ux33, 51),
    n!(Ub110011, 51),
    n!(U52, 52),
    n!(Ux34, 52),
    n!(Ub110100, 52),
    n!(U53, 53),
    n!(Ux35, 53),
    n!(Ub110101, 53),
    n!(U54, 54),
    n!(Ux36, 54),
    n!(Ub110110, 54),
    n!(U55, 55),
    n!(Ux37, 55),
    n!(Ub110111, 55),
    n!(U56, 56),
    n!(Ux38, 56),
    n!(Ub111000, 56),
    n!(U57, 57),
    n!(Ux39, 57),
    n!(Ub111001, 57),
    n!(U58, 58),
    n!(Ux3A, 58),
    n!(Ub111010, 58),
    n!(U59, 59),
    n!(Ux3B, 59),
    n!(Ub111011, 59),
    n!(U60, 60),
    n!(Ux3C, 60),
    n!(Ub111100, 60),
    n!(U61, 61),
    n!(Ux3D, 61),
    n!(Ub111101, 61),
    n!(U62, 62),
    n!(Ux3E, 62),
    n!(Ub111110, 62),
    n!(U63, 63),
    n!(Ux3F, 63),
    n!(Ub111111, 63),
    n!(U64, 64),
    n!(Ux40, 64),
    n!(Ub1000000, 64),
    n!(U65, 65),
    n!(Ux41, 65),
    n!(Ub1000001, 65),
    n!(U66, 66),
    n!(Ux42, 66),
    n!(Ub1000010, 66),
    n!(U67, 67),
    n!(Ux43, 67),
    n!(Ub1000011, 67),
    n!(U68, 68),
    n!(Ux44, 68),
    n!(Ub1000100, 68),
    n!(U69, 69),
    n!(Ux45, 69),
    n!(Ub1000101, 69),
    n!(U70, 70),
    n!(Ux46, 70),
    n!(Ub1000110, 70),
    n!(U71, 71),
    n!(Ux47, 71),
    n!(Ub1000111, 71),
    n!(U72, 72),
    n!(Ux48, 72),
    n!(Ub1001000, 72),
    n!(U73, 73),
    n!(Ux49, 73),
    n!(Ub1001001, 73),
    n!(U74, 74),
    n!(Ux4A, 74),
    n!(Ub1001010, 74),
    n!(U75, 75),
    n!(Ux4B, 75),
    n!(Ub1001011, 75),
    n!(U76, 76),
    n!(Ux4C, 76),
    n!(Ub1001100, 76),
    n!(U77, 77),
    n!(Ux4D, 77),
    n!(Ub1001101, 77),
    n!(U78, 78),
    n!(Ux4E, 78),
    n!(Ub1001110, 78),
    n!(U79, 79),
    n!(Ux4F, 79),
    n!(Ub1001111, 79),
    n!(U80, 80),
    n!(Ux50, 80),
    n!(Ub1010000, 80),
    n!(U81, 81),
    n!(Ux51, 81),
    n!(Ub1010001, 81),
    n!(U82, 82),
    n!(Ux52, 82),
    n!(Ub1010010, 82),
    n!(U83, 83),
    n!(Ux53, 83),
    n!(Ub1010011, 83),
    n!(U84, 84),
    n!(Ux54, 84),
    n!(Ub1010100, 84),
    n!(U85, 85),
    n!(Ux55, 85),
    n!(Ub1010101, 85),
    n!(U86, 86),
    n!(Ux56, 86),
    n!(Ub1010110, 86),
    n!(U87, 87),
    n!(Ux57, 87),
    n!(Ub1010111, 87),
    n!(U88, 88),
    n!(Ux58, 88),
    n!(Ub1011000, 88),
    n!(U89, 89),
    n!(Ux59, 89),
    n!(Ub1011001, 89),
    n!(U90, 90),
    n!(Ux5A, 90),
    n!(Ub1011010, 90),
    n!(U91, 91),
    n!(Ux5B, 91),
    n!(Ub1011011, 91),
    n!(U92, 92),
    n!(Ux5C, 92),
    n!(Ub1011100, 92),
    n!(U93, 93),
    n!(Ux5D, 93),
    n!(Ub1011101, 93),
    n!(U94, 94),
    n!(Ux5E, 94),
    n!(Ub1011110, 94),
    n!(U95, 95),
    n!(Ux5F, 95),
    n!(Ub1011111, 95),
    n!(U96, 96),
    n!(Ux60, 96),
    n!(Ub1100000, 96),
    n!(U97, 97),
    n!(Ux61, 97),
    n!(Ub1100001, 97),
    n!(U98, 98),
    n!(Ux62, 98),
    n!(Ub1100010, 98),
    n!(U99, 99),
    n!(Ux63, 99),
    n!(Ub1100011, 99),
    n!(U100, 100),
    n!(Ux64, 100),
    n!(Ub1100100, 100),
    n!(U101, 101),
    n!(Ux65, 101),
    n!(Ub1100101, 101),
    n!(U102, 102),
    n!(Ux66, 102),
    n!(Ub1100110, 102),
    n!(U103, 103),
    n!(Ux67, 103),
    n!(Ub1100111, 103),
    n!(U104, 104),
    n!(Ux68, 104),
    n!(Ub1101000, 104),
    n!(U105, 105),
    n!(Ux69, 105),
    n!(Ub1101001, 105),
    n!(U106, 106),
    n!(Ux6A, 106),
    n!(Ub1101010, 106),
    n!(U107, 107),
    n!(Ux6B, 107),
    n!(Ub1101011, 107),
    n!(U108, 108),
    n!(Ux6C, 108),
    n!(Ub1101100, 108),
    n!(U109, 109),
    n!(Ux6D, 109),
    n!(Ub1101101, 109),
    n!(U110, 110),
    n!(Ux6E, 110),
    n!(Ub1101110, 110),
    n!(U111, 111),
    n!(Ux6F, 111),
    n!(Ub1101111, 111),
    n!(U112, 112),
    n!(Ux70, 112),
    n!(Ub1110000, 112),
    n!(U113, 113),
    n!(Ux71, 113),
    n!(Ub1110001, 113),
    n!(U114, 114),
    n!(Ux72, 114),
    n!(Ub1110010, 114),
    n!(U115, 115),
    n!(Ux73, 115),
    n!(Ub1110011, 115),
    n!(U116, 116),
    n!(Ux74, 116),
    n!(Ub1110100, 116),
    n!(U117, 117),
    n!(Ux75, 117),
    n!(Ub1110101, 117),
    n!(U118, 118),
    n!(Ux76, 118),
    n!(Ub1110110, 118),
    n!(U119, 119),
    n!(Ux77, 119),
    n!(Ub1110111, 119),
    n!(U120, 120),
    n!(Ux78, 120),
    n!(Ub1111000, 120),
    n!(U121, 121),
    n!(Ux79, 121),
    n!(Ub1111001, 121),
    n!(U122, 122),
    n!(Ux7A, 122),
    n!(Ub1111010, 122),
    n!(U123, 123),
    n!(Ux7B, 123),
    n!(Ub1111011, 123),
    n!(U124, 124),
    n!(Ux7C, 124),
    n!(Ub1111100, 124),
    n!(U125, 125),
    n!(Ux7D, 125),
    n!(Ub1111101, 125),
    n!(U126, 126),
    n!(Ux7E, 126),
    n!(Ub1111110, 126),
    n!(U127, 127),
    n!(Ux7F, 127),
    n!(Ub1111111, 127),
    n!(U128, 128),
    n!(Ux80, 128),
    n!(Ub10000000, 128),
    n!(U129, 129),
    n!(Ux81, 129),
    n!(Ub10000001, 129),
    n!(U130, 130),
    n!(Ux82, 130),
    n!(Ub10000010, 130),
    n!(U131, 131),
    n!(Ux83, 131),
    n!(Ub10000011, 131),
    n!(U132, 132),
    n!(Ux84, 132),
    n!(Ub10000100, 132),
    n!(U133, 133),
    n!(Ux85, 133),
    n!(Ub10000101, 133),
    n!(U134, 134),
    n!(Ux86, 134),
    n!(Ub10000110, 134),
    n!(U135, 135),
    n!(Ux87, 135),
    n!(Ub10000111, 135),
    n!(U136, 136),
    n!(Ux88, 136),
    n!(Ub10001000, 136),
    n!(U137, 137),
    n!(Ux89, 137),
    n!(Ub10001001, 137),
    n!(U138, 138),
    n!(Ux8A, 138),
    n!(Ub10001010, 138),
    n!(U139, 139),
    n!(Ux8B, 139),
    n!(Ub10001011, 139),
    n!(U140, 140),
    n!(Ux8C, 140),
    n!(Ub10001100, 140),
    n!(U141, 141),
    n!(Ux8D, 141),
    n!(Ub10001101, 141),
    n!(U142, 142),
    n!(Ux8E, 142),
    n!(Ub10001110, 142),
    n!(U143, 143),
    n!(Ux8F, 143),
    n!(Ub10001111, 143),
    n!(U144, 144),
    n!(Ux90, 144),
    n!(Ub10010000, 144),
    n!(U145, 145),
    n!(Ux91, 145),
    n!(Ub10010001, 145),
    n!(U146, 146),
    n!(Ux92, 146),
    n!(Ub10010010, 146),
    n!(U147, 147),
    n!(Ux93, 147),
    n!(Ub10010011, 147),
    n!(U148, 148),
    n!(Ux94, 148),
    n!(Ub10010100, 148),
    n!(U149, 149),
    n!(Ux95, 149),
    n!(Ub10010101, 149),
    n!(U150, 150),
    n!(Ux96, 150),
    n!(Ub10010110, 150),
    n!(U151, 151),
    n!(Ux97, 151),
    n!(Ub10010111, 151),
    n!(U152, 152),
    n!(Ux98, 152),
    n!(Ub10011000, 152),
    n!(U153, 153),
    n!(Ux99, 153),
    n!(Ub10011001, 153),
    n!(U154, 154),
    n!(Ux9A, 154),
    n!(Ub10011010, 154),
    n!(U155, 155),
    n!(Ux9B, 155),
    n!(Ub10011011, 155),
    n!(U156, 156),
    n!(Ux9C, 156),
    n!(Ub10011100, 156),
    n!(U157, 157),
    n!(Ux9D, 157),
    n!(Ub10011101, 157),
    n!(U158, 158),
    n!(Ux9E, 158),
    n!(Ub10011110, 158),
    n!(U159, 159),
    n!(Ux9F, 159),
    n!(Ub10011111, 159),
    n!(U160, 160),
    n!(UxA0, 160),
    n!(Ub10100000, 160),
    n!(U161, 161),
    n!(UxA1, 161),
    n!(Ub10100001, 161),
    n!(U162, 162),
    n!(UxA2, 162),
    n!(Ub10100010, 162),
    n!(U163, 163),
    n!(UxA3, 163),
    n!(Ub10100011, 163),
    n!(U164, 164),
    n!(UxA4, 164),
    n!(Ub10100100, 164),
    n!(U165, 165),
    n!(UxA5, 165),
    n!(Ub10100101, 165),
    n!(U166, 166),
    n!(UxA6, 166),
    n!(Ub10100110, 166),
    n!(U167, 167),
    n!(UxA7, 167),
    n!(Ub10100111, 167),
    n!(U168, 168),
    n!(UxA8, 168),
    n!(Ub10101000, 168),
    n!(U169, 169),
    n!(UxA9, 169),
    n!(Ub10101001, 169),
    n!(U170, 170),
    n!(UxAA, 170),
    n!(Ub10101010, 170),
    n!(U171, 171),
    n!(UxAB, 171),
    n!(Ub10101011, 171),
    n!(U172, 172),
    n!(UxAC, 172),
    n!(Ub10101100, 172),
    n!(U173, 173),
    n!(UxAD, 173),
    n!(Ub10101101, 173),
    n!(U174, 174),
    n!(UxAE, 174),
    n!(Ub10101110, 174),
    n!(U175, 175),
    n!(UxAF, 175),
    n!(Ub10101111, 175),
    n!(U176, 176),
    n!(UxB0, 176),
    n!(Ub10110000, 176),
    n!(U177, 177),
    n!(UxB1, 177),
    n!(Ub10110001, 177),
    n!(U178, 178),
    n!(UxB2, 178),
    n!(Ub10110010, 178),
    n!(U179, 179),
    n!(UxB3, 179),
    n!(Ub10110011, 179),
    n!(U180, 180),
    n!(UxB4, 180),
    n!(Ub10110100, 180),
    n!(U181, 181),
    n!(UxB5, 181),
    n!(Ub10110101, 181),
    n!(U182, 182),
    n!(UxB6, 182),
    n!(Ub10110110, 182),
    n!(U183, 183),
    n!(UxB7, 183),
    n!(Ub10110111, 183),
    n!(U184, 184),
    n!(UxB8, 184),
    n!(Ub10111000, 184),
    n!(U185, 185),
    n!(UxB9, 185),
    n!(Ub10111001, 185),
    n!(U186, 186),
    n!(UxBA, 186),
    n!(Ub10111010, 186),
    n!(U187, 187),
    n!(UxBB, 187),
    n!(Ub10111011, 187),
    n!(U188, 188),
    n!(UxBC, 188),
    n!(Ub10111100, 188),
    n!(U189, 189),
    n!(UxBD, 189),
    n!(Ub10111101, 189),
    n!(U190, 190),
    n!(UxBE, 190),
    n!(Ub10111110, 190),
    n!(U191, 191),
    n!(UxBF, 191),
    n!(Ub10111111, 191),
    n!(U192, 192),
    n!(UxC0, 192),
    n!(Ub11000000, 192),
    n!(U193, 193),
    n!(UxC1, 193),
    n!(Ub11000001, 193),
    n!(U194, 194),
    n!(UxC2, 194),
    n!(Ub11000010, 194),
    n!(U195, 195),
    n!(UxC3, 195),
    n!(Ub11000011, 195),
    n!(U196, 196),
    n!(UxC4, 196),
    n!(Ub11000100, 196),
    n!(U197, 197),
    n!(UxC5, 197),
    n!(Ub11000101, 197),
    n!(U198, 198),
    n!(UxC6, 198),
    n!(Ub11000110, 198),
    n!(U199, 199),
    n!(UxC7, 199),
    n!(Ub11000111, 199),
    n!(U200, 200),
    n!(UxC8, 200),
    n!(Ub11001000, 200),
    n!(U201, 201),
    n!(UxC9, 201),
    n!(Ub11001001, 201),
    n!(U202, 202),
    n!(UxCA, 202),
    n!(Ub11001010, 202),
    n!(U203, 203),
    n!(UxCB, 203),
    n!(Ub11001011, 203),
    n!(U204, 204),
    n!(UxCC, 204),
    n!(Ub11001100, 204),
    n!(U205, 205),
    n!(UxCD, 205),
    n!(Ub11001101, 205),
    n!(U206, 206),
    n!(UxCE, 206),
    n!(Ub11001110, 206),
    n!(U207, 207),
    n!(UxCF, 207),
    n!(Ub11001111, 207),
    n!(U208, 208),
    n!(UxD0, 208),
    n!(Ub11010000, 208),
    n!(U209, 209),
    n!(UxD1, 209),
    n!(Ub11010001, 209),
    n!(U210, 210),
    n!(UxD2, 210),
    n!(Ub11010010, 210),
    n!(U211, 211),
    n!(UxD3, 211),
    n!(Ub11010011, 211),
    n!(U212, 212),
    n!(UxD4, 212),
    n!(Ub11010100, 212),
    n!(U213, 213),
    n!(UxD5, 213),
    n!(Ub11010101, 213),
    n!(U214, 214),
    n!(UxD6, 214),
    n!(Ub11010110, 214),
    n!(U215, 215),
    n!(UxD7, 215),
    n!(Ub11010111, 215),
    n!(U216, 216),
    n!(UxD8, 216),
    n!(Ub11011000, 216),
    n!(U217, 217),
    n!(UxD9, 217),
    n!(Ub11011001, 217),
    n!(U218, 218),
    n!(UxDA, 218),
    n!(Ub11011010, 218),
    n!(U219, 219),
    n!(UxDB, 219),
    n!(Ub11011011, 219),
    n!(U220, 220),
    n!(UxDC, 220),
    n!(Ub11011100, 220),
    n!(U221, 221),
    n!(UxDD, 221),
    n!(Ub11011101, 221),
    n!(U222, 222),
    n!(UxDE, 222),
    n!(Ub11011110, 222),
    n!(U223, 223),
    n!(UxDF, 223),
    n!(Ub11011111, 223),
    n!(U224, 224),
    n!(UxE0, 224),
    n!(Ub11100000, 224),
    n!(U225, 225),
    n!(UxE1, 225),
    n!(Ub11100001, 225),
    n!(U226, 226),
    n!(UxE2, 226),
    n!(Ub11100010, 226),
    n!(U227, 227),
    n!(UxE3, 227),
    n!(Ub11100011, 227),
    n!(U228, 228),
    n!(UxE4, 228),
    n!(Ub11100100, 228),
    n!(U229, 229),
    n!(UxE5, 229),
    n!(Ub11100101, 229),
    n!(U230, 230),
    n!(UxE6, 230),
    n!(Ub11100110, 230),
    n!(U231, 231),
    n!(UxE7, 231),
    n!(Ub11100111, 231),
    n!(U232, 232),
    n!(UxE8, 232),
    n!(Ub11101000, 232),
    n!(U233, 233),
    n!(UxE9, 233),
    n!(Ub11101001, 233),
    n!(U234, 234),
    n!(UxEA, 234),
    n!(Ub11101010, 234),
    n!(U235, 235),
    n!(UxEB, 235),
    n!(Ub11101011, 235),
    n!(U236, 236),
    n!(UxEC, 236),
    n!(Ub11101100, 236),
    n!(U237, 237),
    n!(UxED, 237),
    n!(Ub11101101, 237),
    n!(U238, 238),
    n!(UxEE, 238),
    n!(Ub11101110, 238),
    n!(U239, 239),
    n!(UxEF, 239),
    n!(Ub11101111, 239),
    n!(U240, 240),
    n!(UxF0, 240),
    n!(Ub11110000, 240),
    n!(U241, 241),
    n!(UxF1, 241),
    n!(Ub11110001, 241),
    n!(U242, 242),
    n!(UxF2, 242),
    n!(Ub11110010, 242),
    n!(U243, 243),
    n!(UxF3, 243),
    n!(Ub11110011, 243),
    n!(U244, 244),
    n!(UxF4, 244),
    n!(Ub11110100, 244),
    n!(U245, 245),
    n!(UxF5, 245),
    n!(Ub11110101, 245),
    n!(U246, 246),
    n!(UxF6, 246),
    n!(Ub11110110, 246),
    n!(U247, 247),
    n!(UxF7, 247),
    n!(Ub11110111, 247),
    n!(U248, 248),
    n!(UxF8, 248),
    n!(Ub11111000, 248),
    n!(U249, 249),
    n!(UxF9, 249),
    n!(Ub11111001, 249),
    n!(U250, 250),
    n!(UxFA, 250),
    n!(Ub11111010, 250),
    n!(U251, 251),
    n!(UxFB, 251),
    n!(Ub11111011, 251),
    n!(U252, 252),
    n!(UxFC, 252),
    n!(Ub11111100, 252),
    n!(U253, 253),
    n!(UxFD, 253),
    n!(Ub11111101, 253),
    n!(U254, 254),
    n!(UxFE, 254),
    n!(Ub11111110, 254),
    n!(U255, 255),
    n!(UxFF, 255),
    n!(Ub11111111, 255),
    n!(U256, 256),
    n!(Ux100, 256),
    n!(Ub100000000, 256),
    n!(U257, 257),
    n!(Ux101, 257),
    n!(Ub100000001, 257),
    n!(U258, 258),
    n!(Ux102, 258),
    n!(Ub100000010, 258),
    n!(U259, 259),
    n!(Ux103, 259),
    n!(Ub100000011, 259),
    n!(U260, 260),
    n!(Ux104, 260),
    n!(Ub100000100, 260),
    n!(U261, 261),
    n!(Ux105, 261),
    n!(Ub100000101, 261),
    n!(U262, 262),
    n!(Ux106, 262),
    n!(Ub100000110, 262),
    n!(U263, 263),
    n!(Ux107, 263),
    n!(Ub100000111, 263),
    n!(U264, 264),
    n!(Ux108, 264),
    n!(Ub100001000, 264),
    n!(U265, 265),
    n!(Ux109, 265),
    n!(Ub100001001, 265),
    n!(U266, 266),
    n!(Ux10A, 266),
    n!(Ub100001010, 266),
    n!(U267, 267),
    n!(Ux10B, 267),
    n!(Ub100001011, 267),
    n!(U268, 268),
    n!(Ux10C, 268),
    n!(Ub100001100, 268),
    n!(U269, 269),
    n!(Ux10D, 269),
    n!(Ub100001101, 269),
    n!(U270, 270),
    n!(Ux10E, 270),
    n!(Ub100001110, 270),
    n!(U271, 271),
    n!(Ux10F, 271),
    n!(Ub100001111, 271),
    n!(U272, 272),
    n!(Ux110, 272),
    n!(Ub100010000, 272),
    n!(U273, 273),
    n!(Ux111, 273),
    n!(Ub100010001, 273),
    n!(U274, 274),
    n!(Ux112, 274),
    n!(Ub100010010, 274),
    n!(U275, 275),
    n!(Ux113, 275),
    n!(Ub100010011, 275),
    n!(U276, 276),
    n!(Ux114, 276),
    n!(Ub100010100, 276),
    n!(U277, 277),
    n!(Ux115, 277),
    n!(Ub100010101, 277),
    n!(U278, 278),
    n!(Ux116, 278),
    n!(Ub100010110, 278),
    n!(U279, 279),
    n!(Ux117, 279),
    n!(Ub100010111, 279),
    n!(U280, 280),
    n!(Ux118, 280),
    n!(Ub100011000, 280),
    n!(U281, 281),
    n!(Ux119, 281),
    n!(Ub100011001, 281),
    n!(U282, 282),
    n!(Ux11A, 282),
    n!(Ub100011010, 282),
    n!(U283, 283),
    n!(Ux11B, 283),
    n!(Ub100011011, 283),
    n!(U284, 284),
    n!(Ux11C, 284),
    n!(Ub100011100, 284),
    n!(U285, 285),
    n!(Ux11D, 285),
    n!(Ub100011101, 285),
    n!(U286, 286),
    n!(Ux11E, 286),
    n!(Ub100011110, 286),
    n!(U287, 287),
    n!(Ux11F, 287),
    n!(Ub100011111, 287),
    n!(U288, 288),
    n!(Ux120, 288),
    n!(Ub100100000, 288),
    n!(U289, 289),
    n!(Ux121, 289),
    n!(Ub100100001, 289),
    n!(U290, 290),
    n!(Ux122, 290),
    n!(Ub100100010, 290),
    n!(U291, 291),
    n!(Ux123, 291),
    n!(Ub100100011, 291),
    n!(U292, 292),
    n!(Ux124, 292),
    n!(Ub100100100, 292),
    n!(U293, 293),
    n!(Ux125, 293),
    n!(Ub100100101, 293),
    n!(U294, 294),
    n!(Ux126, 294),
    n!(Ub100100110, 294),
    n!(U295, 295),
    n!(Ux127, 295),
    n!(Ub100100111, 295),
    n!(U296, 296),
    n!(Ux128, 296),
    n!(Ub100101000, 296),
    n!(U297, 297),
    n!(Ux129, 297),
    n!(Ub100101001, 297),
    n!(U298, 298),
    n!(Ux12A, 298),
    n!(Ub100101010, 298),
    n!(U299, 299),
    n!(Ux12B, 299),
    n!(Ub100101011, 299),
    n!(U300, 300),
    n!(Ux12C, 300),
    n!(Ub100101100, 300),
    n!(U301, 301),
    n!(Ux12D, 301),
    n!(Ub100101101, 301),
    n!(U302, 302),
    n!(Ux12E, 302),
    n!(Ub100101110, 302),
    n!(U303, 303),
    n!(Ux12F, 303),
    n!(Ub100101111, 303),
    n!(U304, 304),
    n!(Ux130, 304),
    n!(Ub100110000, 304),
    n!(U305, 305),
    n!(Ux131, 305),
    n!(Ub100110001, 305),
    n!(U306, 306),
    n!(Ux132, 306),
    n!(Ub100110010, 306),
    n!(U307, 307),
    n!(Ux133, 307),
    n!(Ub100110011, 307),
    n!(U308, 308),
    n!(Ux134, 308),
    n!(Ub100110100, 308),
    n!(U309, 309),
    n!(Ux135, 309),
    n!(Ub100110101, 309),
    n!(U310, 310),
    n!(Ux136, 310),
    n!(Ub100110110, 310),
    n!(U311, 311),
    n!(Ux137, 311),
    n!(Ub100110111, 311),
    n!(U312, 312),
    n!(Ux138, 312),
    n!(Ub100111000, 312),
    n!(U313, 313),
    n!(Ux139, 313),
    n!(Ub100111001, 313),
    n!(U314, 314),
    n!(Ux13A, 314),
    n!(Ub100111010, 314),
    n!(U315, 315),
    n!(Ux13B, 315),
    n!(Ub100111011, 315),
    n!(U316, 316),
    n!(Ux13C, 316),
    n!(Ub100111100, 316),
    n!(U317, 317),
    n!(Ux13D, 317),
    n!(Ub100111101, 317),
    n!(U318, 318),
    n!(Ux13E, 318),
    n!(Ub100111110, 318),
    n!(U319, 319),
    n!(Ux13F, 319),
    n!(Ub100111111, 319),
    n!(U320, 320),
    n!(Ux140, 320),
    n!(Ub101000000, 320),
    n!(U321, 321),
    n!(Ux141, 321),
    n!(Ub101000001, 321),
    n!(U322, 322),
    n!(Ux142, 322),
    n!(Ub101000010, 322),
    n!(U323, 323),
    n!(Ux143, 323),
    n!(Ub101000011, 323),
    n!(U324, 324),
    n!(Ux144, 324),
    n!(Ub101000100, 324),
    n!(U325, 325),
    n!(Ux145, 325),
    n!(Ub101000101, 325),
    n!(U326, 326),
    n!(Ux146, 326),
    n!(Ub101000110, 326),
    n!(U327, 327),
    n!(Ux147, 327),
    n!(Ub101000111, 327),
    n!(U328, 328),
    n!(Ux148, 328),
    n!(Ub101001000, 328),
    n!(U329, 329),
    n!(Ux149, 329),
    n!(Ub101001001, 329),
    n!(U330, 330),
    n!(Ux14A, 330),
    n!(Ub101001010, 330),
    n!(U331, 331),
    n!(Ux14B, 331),
    n!(Ub101001011, 331),
    n!(U332, 332),
    n!(Ux14C, 332),
    n!(Ub101001100, 332),
    n!(U333, 333),
    n!(Ux14D, 333),
    n!(Ub101001101, 333),
    n!(U334, 334),
    n!(Ux14E, 334),
    n!(Ub101001110, 334),
    n!(U335, 335),
    n!(Ux14F, 335),
    n!(Ub101001111, 335),
    n!(U336, 336),
    n!(Ux150, 336),
    n!(Ub101010000, 336),
    n!(U337, 337),
    n!(Ux151, 337),
    n!(Ub101010001, 337),
    n!(U338, 338),
    n!(Ux152, 338),
    n!(Ub101010010, 338),
    n!(U339, 339),
    n!(Ux153, 339),
    n!(Ub101010011, 339),
    n!(U340, 340),
    n!(Ux154, 340),
    n!(Ub101010100, 340),
    n!(U341, 341),
    n!(Ux155, 341),
    n!(Ub101010101, 341),
    n!(U342, 342),
    n!(Ux156, 342),
    n!(Ub101010110, 342),
    n!(U343, 343),
    n!(Ux157, 343),
    n!(Ub101010111, 343),
    n!(U344, 344),
    n!(Ux158, 344),
    n!(Ub101011000, 344),
    n!(U345, 345),
    n!(Ux159, 345),
    n!(Ub101011001, 345),
    n!(U346, 346),
    n!(Ux15A, 346),
    n!(Ub101011010, 346),
    n!(U347, 347),
    n!(Ux15B, 347),
    n!(Ub101011011, 347),
    n!(U348, 348),
    n!(Ux15C, 348),
    n!(Ub101011100, 348),
    n!(U349, 349),
    n!(Ux15D, 349),
    n!(Ub101011101, 349),
    n!(U350, 350),
    n!(Ux15E, 350),
    n!(Ub101011110, 350),
    n!(U351, 351),
    n!(Ux15F, 351),
    n!(Ub101011111, 351),
    n!(U352, 352),
    n!(Ux160, 352),
    n!(Ub101100000, 352),
    n!(U353, 353),
    n!(Ux161, 353),
    n!(Ub101100001, 353),
    n!(U354, 354),
    n!(Ux162, 354),
    n!(Ub101100010, 354),
    n!(U355, 355),
    n!(Ux163, 355),
    n!(Ub101100011, 355),
    n!(U356, 356),
    n!(Ux164, 356),
    n!(Ub101100100, 356),
    n!(U357, 357),
    n!(Ux165, 357),
    n!(Ub101100101, 357),
    n!(U358, 358),
    n!(Ux166, 358),
    n!(Ub101100110, 358),
    n!(U359, 359),
    n!(Ux167, 359),
    n!(Ub101100111, 359),
    n!(U360, 360),
    n!(Ux168, 360),
    n!(Ub101101000, 360),
    n!(U361, 361),
    n!(Ux169, 361),
    n!(Ub101101001, 361),
    n!(U362, 362),
    n!(Ux16A, 362),
    n!(Ub101101010, 362),
    n!(U363, 363),
    n!(Ux16B, 363),
    n!(Ub101101011, 363),
    n!(U364, 364),
    n!(Ux16C, 364),
    n!(Ub101101100, 364),
    n!(U365, 365),
    n!(Ux16D, 365),
    n!(Ub101101101, 365),
    n!(U366, 366),
    n!(Ux16E, 366),
    n!(Ub101101110, 366),
    n!(U367, 367),
    n!(Ux16F, 367),
    n!(Ub101101111, 367),
    n!(U368, 368),
    n!(Ux170, 368),
    n!(Ub101110000, 368),
    n!(U369, 369),
    n!(Ux171, 369),
    n!(Ub101110001, 369),
    n!(U370, 370),
    n!(Ux172, 370),
    n!(Ub101110010, 370),
    n!(U371, 371),
    n!(Ux173, 371),
    n!(Ub101110011, 371),
    n!(U372, 372),
    n!(Ux174, 372),
    n!(Ub101110100, 372),
    n!(U373, 373),
    n!(Ux175, 373),
    n!(Ub101110101, 373),
    n!(U374, 374),
    n!(Ux176, 374),
    n!(Ub101110110, 374),
    n!(U375, 375),
    n!(Ux177, 375),
    n!(Ub101110111, 375),
    n!(U376, 376),
    n!(Ux178, 376),
    n!(Ub101111000, 376),
    n!(U377, 377),
    n!(Ux179, 377),
    n!(Ub101111001, 377),
    n!(U378, 378),
    n!(Ux17A, 378),
    n!(Ub101111010, 378),
    n!(U379, 379),
    n!(Ux17B, 379),
    n!(Ub101111011, 379),
    n!(U380, 380),
    n!(Ux17C, 380),
    n!(Ub101111100, 380),
    n!(U381, 381),
    n!(Ux17D, 381),
    n!(Ub101111101, 381),
    n!(U382, 382),
    n!(Ux17E, 382),
    n!(Ub101111110, 382),
    n!(U383, 383),
    n!(Ux17F, 383),
    n!(Ub101111111, 383),
    n!(U384, 384),
    n!(Ux180, 384),
    n!(Ub110000000, 384),
    n!(U385, 385),
    n!(Ux181, 385),
    n!(Ub110000001, 385),
    n!(U386, 386),
    n!(Ux182, 386),
    n!(Ub110000010, 386),
    n!(U387, 387),
    n!(Ux183, 387),
    n!(Ub110000011, 387),
    n!(U388, 388),
    n!(Ux184, 388),
    n!(Ub110000100, 388),
    n!(U389, 389),
    n!(Ux185, 389),
    n!(Ub110000101, 389),
    n!(U390, 390),
    n!(Ux186, 390),
    n!(Ub110000110, 390),
    n!(U391, 391),
    n!(Ux187, 391),
    n!(Ub110000111, 391),
    n!(U392, 392),
    n!(Ux188, 392),
    n!(Ub110001000, 392),
    n!(U393, 393),
    n!(Ux189, 393),
    n!(Ub110001001, 393),
    n!(U394, 394),
    n!(Ux18A, 394),
    n!(Ub110001010, 394),
    n!(U395, 395),
    n!(Ux18B, 395),
    n!(Ub110001011, 395),
    n!(U396, 396),
    n!(Ux18C, 396),
    n!(Ub110001100, 396),
    n!(U397, 397),
    n!(Ux18D, 397),
    n!(Ub110001101, 397),
    n!(U398, 398),
    n!(Ux18E, 398),
    n!(Ub110001110, 398),
    n!(U399, 399),
    n!(Ux18F, 399),
    n!(Ub110001111, 399),
    n!(U400, 400),
    n!(Ux190, 400),
    n!(Ub110010000, 400),
    n!(U401, 401),
    n!(Ux191, 401),
    n!(Ub110010001, 401),
    n!(U402, 402),
    n!(Ux192, 402),
    n!(Ub110010010, 402),
    n!(U403, 403),
    n!(Ux193, 403),
    n!(Ub110010011, 403),
    n!(U404, 404),
    n!(Ux194, 404),
    n!(Ub110010100, 404),
    n!(U405, 405),
    n!(Ux195, 405),
    n!(Ub110010101, 405),
    n!(U406, 406),
    n!(Ux196, 406),
    n!(Ub110010110, 406),
    n!(U407, 407),
    n!(Ux197, 407),
    n!(Ub110010111, 407),
    n!(U408, 408),
    n!(Ux198, 408),
    n!(Ub110011000, 408),
    n!(U409, 409),
    n!(Ux199, 409),
    n!(Ub110011001, 409),
    n!(U410, 410),
    n!(Ux19A, 410),
    n!(Ub110011010, 410),
    n!(U411, 411),
    n!(Ux19B, 411),
    n!(Ub110011011, 411),
    n!(U412, 412),
    n!(Ux19C, 412),
    n!(Ub110011100, 412),
    n!(U413, 413),
    n!(Ux19D, 413),
    n!(Ub110011101, 413),
    n!(U414, 414),
    n!(Ux19E, 414),
    n!(Ub110011110, 414),
    n!(U415, 415),
    n!(Ux19F, 415),
    n!(Ub110011111, 415),
    n!(U416, 416),
    n!(Ux1A0, 416),
    n!(Ub110100000, 416),
    n!(U417, 417),
    n!(Ux1A1, 417),
    n!(Ub110100001, 417),
    n!(U418, 418),
    n!(Ux1A2, 418),
    n!(Ub110100010, 418),
    n!(U419, 419),
    n!(Ux1A3, 419),
    n!(Ub110100011, 419),
    n!(U420, 420),
    n!(Ux1A4, 420),
    n!(Ub110100100, 420),
    n!(U421, 421),
    n!(Ux1A5, 421),
    n!(Ub110100101, 421),
    n!(U422, 422),
    n!(Ux1A6, 422),
    n!(Ub110100110, 422),
    n!(U423, 423),
    n!(Ux1A7, 423),
    n!(Ub110100111, 423),
    n!(U424, 424),
    n!(Ux1A8, 424),
    n!(Ub110101000, 424),
    n!(U425, 425),
    n!(Ux1A9, 425),
    n!(Ub110101001, 425),
    n!(U426, 426),
    n!(Ux1AA, 426),
    n!(Ub110101010, 426),
    n!(U427, 427),
    n!(Ux1AB, 427),
    n!(Ub110101011, 427),
    n!(U428, 428),
    n!(Ux1AC, 428),
    n!(Ub110101100, 428),
    n!(U429, 429),
    n!(Ux1AD, 429),
    n!(Ub110101101, 429),
    n!(U430, 430),
    n!(Ux1AE, 430),
    n!(Ub110101110, 430),
    n!(U431, 431),
    n!(Ux1AF, 431),
    n!(Ub110101111, 431),
    n!(U432, 432),
    n!(Ux1B0, 432),
    n!(Ub110110000, 432),
    n!(U433, 433),
    n!(Ux1B1, 433),
    n!(Ub110110001, 433),
    n!(U434, 434),
    n!(Ux1B2, 434),
    n!(Ub110110010, 434),
    n!(U435, 435),
    n!(Ux1B3, 435),
    n!(Ub110110011, 435),
    n!(U436, 436),
    n!(Ux1B4, 436),
    n!(Ub110110100, 436),
    n!(U437, 437),
    n!(Ux1B5, 437),
    n!(Ub110110101, 437),
    n!(U438, 438),
    n!(Ux1B6, 438),
    n!(Ub110110110, 438),
    n!(U439, 439),
    n!(Ux1B7, 439),
    n!(Ub110110111, 439),
    n!(U440, 440),
    n!(Ux1B8, 440),
    n!(Ub110111000, 440),
    n!(U441, 441),
    n!(Ux1B9, 441),
    n!(Ub110111001, 441),
    n!(U442, 442),
    n!(Ux1BA, 442),
    n!(Ub110111010, 442),
    n!(U443, 443),
    n!(Ux1BB, 443),
    n!(Ub110111011, 443),
    n!(U444, 444),
    n!(Ux1BC, 444),
    n!(Ub110111100, 444),
    n!(U445, 445),
    n!(Ux1BD, 445),
    n!(Ub110111101, 445),
    n!(U446, 446),
    n!(Ux1BE, 446),
    n!(Ub110111110, 446),
    n!(U447, 447),
    n!(Ux1BF, 447),
    n!(Ub110111111, 447),
    n!(U448, 448),
    n!(Ux1C0, 448),
    n!(Ub111000000, 448),
    n!(U449, 449),
    n!(Ux1C1, 449),
    n!(Ub111000001, 449),
    n!(U450, 450),
    n!(Ux1C2, 450),
    n!(Ub111000010, 450),
    n!(U451, 451),
    n!(Ux1C3, 451),
    n!(Ub111000011, 451),
    n!(U452, 452),
    n!(Ux1C4, 452),
    n!(Ub111000100, 452),
    n!(U453, 453),
    n!(Ux1C5, 453),
    n!(Ub111000101, 453),
    n!(U454, 454),
    n!(Ux1C6, 454),
    n!(Ub111000110, 454),
    n!(U455, 455),
    n!(Ux1C7, 455),
    n!(Ub111000111, 455),
    n!(U456, 456),
    n!(Ux1C8, 456),
    n!(Ub111001000, 456),
    n!(U457, 457),
    n!(Ux1C9, 457),
    n!(Ub111001001, 457),
    n!(U458, 458),
    n!(Ux1CA, 458),
    n!(Ub111001010, 458),
    n!(U459, 459),
    n!(Ux1CB, 459),
    n!(Ub111001011, 459),
    n!(U460, 460),
    n!(Ux1CC, 460),
    n!(Ub111001100, 460),
    n!(U461, 461),
    n!(Ux1CD, 461),
    n!(Ub111001101, 461),
    n!(U462, 462),
    n!(Ux1CE, 462),
    n!(Ub111001110, 462),
    n!(U463, 463),
    n!(Ux1CF, 463),
    n!(Ub111001111, 463),
    n!(U464, 464),
    n!(Ux1D0, 464),
    n!(Ub111010000, 464),
    n!(U465, 465),
    n!(Ux1D1, 465),
    n!(Ub111010001, 465),
    n!(U466, 466),
    n!(Ux1D2, 466),
    n!(Ub111010010, 466),
    n!(U467, 467),
    n!(Ux1D3, 467),
    n!(Ub111010011, 467),
    n!(U468, 468),
    n!(Ux1D4, 468),
    n!(Ub111010100, 468),
    n!(U469, 469),
    n!(Ux1D5, 469),
    n!(Ub111010101, 469),
    n!(U470, 470),
    n!(Ux1D6, 470),
    n!(Ub111010110, 470),
    n!(U471, 471),
    n!(Ux1D7, 471),
    n!(Ub111010111, 471),
    n!(U472, 472),
    n!(Ux1D8, 472),
    n!(Ub111011000, 472),
    n!(U473, 473),
    n!(Ux1D9, 473),
    n!(Ub111011001, 473),
    n!(U474, 474),
    n!(Ux1DA, 474),
    n!(Ub111011010, 474),
    n!(U475, 475),
    n!(Ux1DB, 475),
    n!(Ub111011011, 475),
    n!(U476, 476),
    n!(Ux1DC, 476),
    n!(Ub111011100, 476),
    n!(U477, 477),
    n!(Ux1DD, 477),
    n!(Ub111011101, 477),
    n!(U478, 478),
    n!(Ux1DE, 478),
    n!(Ub111011110, 478),
    n!(U479, 479),
    n!(Ux1DF, 479),
    n!(Ub111011111, 479),
    n!(U480, 480),
    n!(Ux1E0, 480),
    n!(Ub111100000, 480),
    n!(U481, 481),
    n!(Ux1E1, 481),
    n!(Ub111100001, 481),
    n!(U482, 482),
    n!(Ux1E2, 482),
    n!(Ub111100010, 482),
    n!(U483, 483),
    n!(Ux1E3, 483),
    n!(Ub111100011, 483),
    n!(U484, 484),
    n!(Ux1E4, 484),
    n!(Ub111100100, 484),
    n!(U485, 485),
    n!(Ux1E5, 485),
    n!(Ub111100101, 485),
    n!(U486, 486),
    n!(Ux1E6, 486),
    n!(Ub111100110, 486),
    n!(U487, 487),
    n!(Ux1E7, 487),
    n!(Ub111100111, 487),
    n!(U488, 488),
    n!(Ux1E8, 488),
    n!(Ub111101000, 488),
    n!(U489, 489),
    n!(Ux1E9, 489),
    n!(Ub111101001, 489),
    n!(U490, 490),
    n!(Ux1EA, 490),
    n!(Ub111101010, 490),
    n!(U491, 491),
    n!(Ux1EB, 491),
    n!(Ub111101011, 491),
    n!(U492, 492),
    n!(Ux1EC, 492),
    n!(Ub111101100, 492),
    n!(U493, 493),
    n!(Ux1ED, 493),
    n!(Ub111101101, 493),
    n!(U494, 494),
    n!(Ux1EE, 494),
    n!(Ub111101110, 494),
    n!(U495, 495),
    n!(Ux1EF, 495),
    n!(Ub111101111, 495),
    n!(U496, 496),
    n!(Ux1F0, 496),
    n!(Ub111110000, 496),
    n!(U497, 497),
    n!(Ux1F1, 497),
    n!(Ub111110001, 497),
    n!(U498, 498),
    n!(Ux1F2, 498),
    n!(Ub111110010, 498),
    n!(U499, 499),
    n!(Ux1F3, 499),
    n!(Ub111110011, 499),
    n!(U500, 500),
    n!(Ux1F4, 500),
    n!(Ub111110100, 500),
    n!(U501, 501),
    n!(Ux1F5, 501),
    n!(Ub111110101, 501),
    n!(U502, 502),
    n!(Ux1F6, 502),
    n!(Ub111110110, 502),
    n!(U503, 503),
    n!(Ux1F7, 503),
    n!(Ub111110111, 503),
    n!(U504, 504),
    n!(Ux1F8, 504),
    n!(Ub111111000, 504),
    n!(U505, 505),
    n!(Ux1F9, 505),
    n!(Ub111111001, 505),
    n!(U506, 506),
    n!(Ux1FA, 506),
    n!(Ub111111010, 506),
    n!(U507, 507),
    n!(Ux1FB, 507),
    n!(Ub111111011, 507),
    n!(U508, 508),
    n!(Ux1FC, 508),
    n!(Ub111111100, 508),
    n!(U509, 509),
    n!(Ux1FD, 509),
    n!(Ub111111101, 509),
    n!(U510, 510),
    n!(Ux1FE, 510),
    n!(Ub111111110, 510),
    n!(U511, 511),
    n!(Ux1FF, 511),
    n!(Ub111111111, 511),
    n!(U512, 512),
    n!(Ux200, 512),
    n!(Ub1000000000, 512),
    n!(U513, 513),
    n!(Ux201, 513),
    n!(Ub1000000001, 513),
    n!(U514, 514),
    n!(Ux202, 514),
    n!(Ub1000000010, 514),
    n!(U515, 515),
    n!(Ux203, 515),
    n!(Ub1000000011, 515),
    n!(U516, 516),
    n!(Ux204, 516),
    n!(Ub1000000100, 516),
    n!(U517, 517),
    n!(Ux205, 517),
    n!(Ub1000000101, 517),
    n!(U518, 518),
    n!(Ux206, 518),
    n!(Ub1000000110, 518),
    n!(U519, 519),
    n!(Ux207, 519),
    n!(Ub1000000111, 519),
    n!(U520, 520),
    n!(Ux208, 520),
    n!(Ub1000001000, 520),
    n!(U521, 521),
    n!(Ux209, 521),
    n!(Ub1000001001, 521),
    n!(U522, 522),
    n!(Ux20A, 522),
    n!(Ub1000001010, 522),
    n!(U523, 523),
    n!(Ux20B, 523),
    n!(Ub1000001011, 523),
    n!(U524, 524),
    n!(Ux20C, 524),
    n!(Ub1000001100, 524),
    n!(U525, 525),
    n!(Ux20D, 525),
    n!(Ub1000001101, 525),
    n!(U526, 526),
    n!(Ux20E, 526),
    n!(Ub1000001110, 526),
    n!(U527, 527),
    n!(Ux20F, 527),
    n!(Ub1000001111, 527),
    n!(U528, 528),
    n!(Ux210, 528),
    n!(Ub1000010000, 528),
    n!(U529, 529),
    n!(Ux211, 529),
    n!(Ub1000010001, 529),
    n!(U530, 530),
    n!(Ux212, 530),
    n!(Ub1000010010, 530),
    n!(U531, 531),
    n!(Ux213, 531),
    n!(Ub1000010011, 531),
    n!(U532, 532),
    n!(Ux214, 532),
    n!(Ub1000010100, 532),
    n!(U533, 533),
    n!(Ux215, 533),
    n!(Ub1000010101, 533),
    n!(U534, 534),
    n!(Ux216, 534),
    n!(Ub1000010110, 534),
    n!(U535, 535),
    n!(Ux217, 535),
    n!(Ub1000010111, 535),
    n!(U536, 536),
    n!(Ux218, 536),
    n!(Ub1000011000, 536),
    n!(U537, 537),
    n!(Ux219, 537),
    n!(Ub1000011001, 537),
    n!(U538, 538),
    n!(Ux21A, 538),
    n!(Ub1000011010, 538),
    n!(U539, 539),
    n!(Ux21B, 539),
    n!(Ub1000011011, 539),
    n!(U540, 540),
    n!(Ux21C, 540),
    n!(Ub1000011100, 540),
    n!(U541, 541),
    n!(Ux21D, 541),
    n!(Ub1000011101, 541),
    n!(U542, 542),
    n!(Ux21E, 542),
    n!(Ub1000011110, 542),
    n!(U543, 543),
    n!(Ux21F, 543),
    n!(Ub1000011111, 543),
    n!(U544, 544),
    n!(Ux220, 544),
    n!(Ub1000100000, 544),
    n!(U545, 545),
    n!(Ux221, 545),
    n!(Ub1000100001, 545),
    n!(U546, 546),
    n!(Ux222, 546),
    n!(Ub1000100010, 546),
    n!(U547, 547),
    n!(Ux223, 547),
    n!(Ub1000100011, 547),
    n!(U548, 548),
    n!(Ux224, 548),
    n!(Ub1000100100, 548),
    n!(U549, 549),
    n!(Ux225, 549),
    n!(Ub1000100101, 549),
    n!(U550, 550),
    n!(Ux226, 550),
    n!(Ub1000100110, 550),
    n!(U551, 551),
    n!(Ux227, 551),
    n!(Ub1000100111, 551),
    n!(U552, 552),
    n!(Ux228, 552),
    n!(Ub1000101000, 552),
    n!(U553, 553),
    n!(Ux229, 553),
    n!(Ub1000101001, 553),
    n!(U554, 554),
    n!(Ux22A, 554),
    n!(Ub1000101010, 554),
    n!(U555, 555),
    n!(Ux22B, 555),
    n!(Ub1000101011, 555),
    n!(U556, 556),
    n!(Ux22C, 556),
    n!(Ub1000101100, 556),
    n!(U557, 557),
    n!(Ux22D, 557),
    n!(Ub1000101101, 557),
    n!(U558, 558),
    n!(Ux22E, 558),
    n!(Ub1000101110, 558),
    n!(U559, 559),
    n!(Ux22F, 559),
    n!(Ub1000101111, 559),
    n!(U560, 560),
    n!(Ux230, 560),
    n!(Ub1000110000, 560),
    n!(U561, 561),
    n!(Ux231, 561),
    n!(Ub1000110001, 561),
    n!(U562, 562),
    n!(Ux232, 562),
    n!(Ub1000110010, 562),
    n!(U563, 563),
    n!(Ux233, 563),
    n!(Ub1000110011, 563),
    n!(U564, 564),
    n!(Ux234, 564),
    n!(Ub1000110100, 564),
    n!(U565, 565),
    n!(Ux235, 565),
    n!(Ub1000110101, 565),
    n!(U566, 566),
    n!(Ux236, 566),
    n!(Ub1000110110, 566),
    n!(U567, 567),
    n!(Ux237, 567),
    n!(Ub1000110111, 567),
    n!(U568, 568),
    n!(Ux238, 568),
    n!(Ub1000111000, 568),
    n!(U569, 569),
    n!(Ux239, 569),
    n!(Ub1000111001, 569),
    n!(U570, 570),
    n!(Ux23A, 570),
    n!(Ub1000111010, 570),
    n!(U571, 571),
    n!(Ux23B, 571),
    n!(Ub1000111011, 571),
    n!(U572, 572),
    n!(Ux23C, 572),
    n!(Ub1000111100, 572),
    n!(U573, 573),
    n!(Ux23D, 573),
    n!(Ub1000111101, 573),
    n!(U574, 574),
    n!(Ux23E, 574),
    n!(Ub1000111110, 574),
    n!(U575, 575),
    n!(Ux23F, 575),
    n!(Ub1000111111, 575),
    n!(U576, 576),
    n!(Ux240, 576),
    n!(Ub1001000000, 576),
    n!(U577, 577),
    n!(Ux241, 577),
    n!(Ub1001000001, 577),
    n!(U578, 578),
    n!(Ux242, 578),
    n!(Ub1001000010, 578),
    n!(U579, 579),
    n!(Ux243, 579),
    n!(Ub1001000011, 579),
    n!(U580, 580),
    n!(Ux244, 580),
    n!(Ub1001000100, 580),
    n!(U581, 581),
    n!(Ux245, 581),
    n!(Ub1001000101, 581),
    n!(U582, 582),
    n!(Ux246, 582),
    n!(Ub1001000110, 582),
    n!(U583, 583),
    n!(Ux247, 583),
    n!(Ub1001000111, 583),
    n!(U584, 584),
    n!(Ux248, 584),
    n!(Ub1001001000, 584),
    n!(U585, 585),
    n!(Ux249, 585),
    n!(Ub1001001001, 585),
    n!(U586, 586),
    n!(Ux24A, 586),
    n!(Ub1001001010, 586),
    n!(U587, 587),
    n!(Ux24B, 587),
    n!(Ub1001001011, 587),
    n!(U588, 588),
    n!(Ux24C, 588),
    n!(Ub1001001100, 588),
    n!(U589, 589),
    n!(Ux24D, 589),
    n!(Ub1001001101, 589),
    n!(U590, 590),
    n!(Ux24E, 590),
    n!(Ub1001001110, 590),
    n!(U591, 591),
    n!(Ux24F, 591),
    n!(Ub1001001111, 591),
    n!(U592, 592),
    n!(Ux250, 592),
    n!(Ub1001010000, 592),
    n!(U593, 593),
    n!(Ux251, 593),
    n!(Ub1001010001, 593),
    n!(U594, 594),
    n!(Ux252, 594),
    n!(Ub1001010010, 594),
    n!(U595, 595),
    n!(Ux253, 595),
    n!(Ub1001010011, 595),
    n!(U596, 596),
    n!(Ux254, 596),
    n!(Ub1001010100, 596),
    n!(U597, 597),
    n!(Ux255, 597),
    n!(Ub1001010101, 597),
    n!(U598, 598),
    n!(Ux256, 598),
    n!(Ub1001010110, 598),
    n!(U599, 599),
    n!(Ux257, 599),
    n!(Ub1001010111, 599),
    n!(U600, 600),
    n!(Ux258, 600),
    n!(Ub1001011000, 600),
    n!(U601, 601),
    n!(Ux259, 601),
    n!(Ub1001011001, 601),
    n!(U602, 602),
    n!(Ux25A, 602),
    n!(Ub1001011010, 602),
    n!(U603, 603),
    n!(Ux25B, 603),
    n!(Ub1001011011, 603),
    n!(U604, 604),
    n!(Ux25C, 604),
    n!(Ub1001011100, 604),
    n!(U605, 605),
    n!(Ux25D, 605),
    n!(Ub1001011101, 605),
    n!(U606, 606),
    n!(Ux25E, 606),
    n!(Ub1001011110, 606),
    n!(U607, 607),
    n!(Ux25F, 607),
    n!(Ub1001011111, 607),
    n!(U608, 608),
    n!(Ux260, 608),
    n!(Ub1001100000, 608),
    n!(U609, 609),
    n!(Ux261, 609),
    n!(Ub1001100001, 609),
    n!(U610, 610),
    n!(Ux262, 610),
    n!(Ub1001100010, 610),
    n!(U611, 611),
    n!(Ux263, 611),
    n!(Ub1001100011, 611),
    n!(U612, 612),
    n!(Ux264, 612),
    n!(Ub1001100100, 612),
    n!(U613, 613),
    n!(Ux265, 613),
    n!(Ub1001100101, 613),
    n!(U614, 614),
    n!(Ux266, 614),
    n!(Ub1001100110, 614),
    n!(U615, 615),
    n!(Ux267, 615),
    n!(Ub1001100111, 615),
    n!(U616, 616),
    n!(Ux268, 616),
    n!(Ub1001101000, 616),
    n!(U617, 617),
    n!(Ux269, 617),
    n!(Ub1001101001, 617),
    n!(U618, 618),
    n!(Ux26A, 618),
    n!(Ub1001101010, 618),
    n!(U619, 619),
    n!(Ux26B, 619),
    n!(Ub1001101011, 619),
    n!(U620, 620),
    n!(Ux26C, 620),
    n!(Ub1001101100, 620),
    n!(U621, 621),
    n!(Ux26D, 621),
    n!(Ub1001101101, 621),
    n!(U622, 622),
    n!(Ux26E, 622),
    n!(Ub1001101110, 622),
    n!(U623, 623),
    n!(Ux26F, 623),
    n!(Ub1001101111, 623),
    n!(U624, 624),
    n!(Ux270, 624),
    n!(Ub1001110000, 624),
    n!(U625, 625),
    n!(Ux271, 625),
    n!(Ub1001110001, 625),
    n!(U626, 626),
    n!(Ux272, 626),
    n!(Ub1001110010, 626),
    n!(U627, 627),
    n!(Ux273, 627),
    n!(Ub1001110011, 627),
    n!(U628, 628),
    n!(Ux274, 628),
    n!(Ub1001110100, 628),
    n!(U629, 629),
    n!(Ux275, 629),
    n!(Ub1001110101, 629),
    n!(U630, 630),
    n!(Ux276, 630),
    n!(Ub1001110110, 630),
    n!(U631, 631),
    n!(Ux277, 631),
    n!(Ub1001110111, 631),
    n!(U632, 632),
    n!(Ux278, 632),
    n!(Ub1001111000, 632),
    n!(U633, 633),
    n!(Ux279, 633),
    n!(Ub1001111001, 633),
    n!(U634, 634),
    n!(Ux27A, 634),
    n!(Ub1001111010, 634),
    n!(U635, 635),
    n!(Ux27B, 635),
    n!(Ub1001111011, 635),
    n!(U636, 636),
    n!(Ux27C, 636),
    n!(Ub1001111100, 636),
    n!(U637, 637),
    n!(Ux27D, 637),
    n!(Ub1001111101, 637),
    n!(U638, 638),
    n!(Ux27E, 638),
    n!(Ub1001111110, 638),
    n!(U639, 639),
    n!(Ux27F, 639),
    n!(Ub1001111111, 639),
    n!(U640, 640),
    n!(Ux280, 640),
    n!(Ub1010000000, 640),
    n!(U641, 641),
    n!(Ux281, 641),
    n!(Ub1010000001, 641),
    n!(U642, 642),
    n!(Ux282, 642),
    n!(Ub1010000010, 642),
    n!(U643, 643),
    n!(Ux283, 643),
    n!(Ub1010000011, 643),
    n!(U644, 644),
    n!(Ux284, 644),
    n!(Ub1010000100, 644),
    n!(U645, 645),
    n!(Ux285, 645),
    n!(Ub1010000101, 645),
    n!(U646, 646),
    n!(Ux286, 646),
    n!(Ub1010000110, 646),
    n!(U647, 647),
    n!(Ux287, 647),
    n!(Ub1010000111, 647),
    n!(U648, 648),
    n!(Ux288, 648),
    n!(Ub1010001000, 648),
    n!(U649, 649),
    n!(Ux289, 649),
    n!(Ub1010001001, 649),
    n!(U650, 650),
    n!(Ux28A, 650),
    n!(Ub1010001010, 650),
    n!(U651, 651),
    n!(Ux28B, 651),
    n!(Ub1010001011, 651),
    n!(U652, 652),
    n!(Ux28C, 652),
    n!(Ub1010001100, 652),
    n!(U653, 653),
    n!(Ux28D, 653),
    n!(Ub1010001101, 653),
    n!(U654, 654),
    n!(Ux28E, 654),
    n!(Ub1010001110, 654),
    n!(U655, 655),
    n!(Ux28F, 655),
    n!(Ub1010001111, 655),
    n!(U656, 656),
    n!(Ux290, 656),
    n!(Ub1010010000, 656),
    n!(U657, 657),
    n!(Ux291, 657),
    n!(Ub1010010001, 657),
    n!(U658, 658),
    n!(Ux292, 658),
    n!(Ub1010010010, 658),
    n!(U659, 659),
    n!(Ux293, 659),
    n!(Ub1010010011, 659),
    n!(U660, 660),
    n!(Ux294, 660),
    n!(Ub1010010100, 660),
    n!(U661, 661),
    n!(Ux295, 661),
    n!(Ub1010010101, 661),
    n!(U662, 662),
    n!(Ux296, 662),
    n!(Ub1010010110, 662),
    n!(U663, 663),
    n!(Ux297, 663),
    n!(Ub1010010111, 663),
    n!(U664, 664),
    n!(Ux298, 664),
    n!(Ub1010011000, 664),
    n!(U665, 665),
    n!(Ux299, 665),
    n!(Ub1010011001, 665),
    n!(U666, 666),
    n!(Ux29A, 666),
    n!(Ub1010011010, 666),
    n!(U667, 667),
    n!(Ux29B, 667),
    n!(Ub1010011011, 667),
    n!(U668, 668),
    n!(Ux29C, 668),
    n!(Ub1010011100, 668),
    n!(U669, 669),
    n!(Ux29D, 669),
    n!(Ub1010011101, 669),
    n!(U670, 670),
    n!(Ux29E, 670),
    n!(Ub1010011110, 670),
    n!(U671, 671),
    n!(Ux29F, 671),
    n!(Ub1010011111, 671),
    n!(U672, 672),
    n!(Ux2A0, 672),
    n!(Ub1010100000, 672),
    n!(U673, 673),
    n!(Ux2A1, 673),
    n!(Ub1010100001, 673),
    n!(U674, 674),
    n!(Ux2A2, 674),
    n!(Ub1010100010, 674),
    n!(U675, 675),
    n!(Ux2A3, 675),
    n!(Ub1010100011, 675),
    n!(U676, 676),
    n!(Ux2A4, 676),
    n!(Ub1010100100, 676),
    n!(U677, 677),
    n!(Ux2A5, 677),
    n!(Ub1010100101, 677),
    n!(U678, 678),
    n!(Ux2A6, 678),
    n!(Ub1010100110, 678),
    n!(U679, 679),
    n!(Ux2A7, 679),
    n!(Ub1010100111, 679),
    n!(U680, 680),
    n!(Ux2A8, 680),
    n!(Ub1010101000, 680),
    n!(U681, 681),
    n!(Ux2A9, 681),
    n!(Ub1010101001, 681),
    n!(U682, 682),
    n!(Ux2AA, 682),
    n!(Ub1010101010, 682),
    n!(U683, 683),
    n!(Ux2AB, 683),
    n!(Ub1010101011, 683),
    n!(U684, 684),
    n!(Ux2AC, 684),
    n!(Ub1010101100, 684),
    n!(U685, 685),
    n!(Ux2AD, 685),
    n!(Ub1010101101, 685),
    n!(U686, 686),
    n!(Ux2AE, 686),
    n!(Ub1010101110, 686),
    n!(U687, 687),
    n!(Ux2AF, 687),
    n!(Ub1010101111, 687),
    n!(U688, 688),
    n!(Ux2B0, 688),
    n!(Ub1010110000, 688),
    n!(U689, 689),
    n!(Ux2B1, 689),
    n!(Ub1010110001, 689),
    n!(U690, 690),
    n!(Ux2B2, 690),
    n!(Ub1010110010, 690),
    n!(U691, 691),
    n!(Ux2B3, 691),
    n!(Ub1010110011, 691),
    n!(U692, 692),
    n!(Ux2B4, 692),
    n!(Ub1010110100, 692),
    n!(U693, 693),
    n!(Ux2B5, 693),
    n!(Ub1010110101, 693),
    n!(U694, 694),
    n!(Ux2B6, 694),
    n!(Ub1010110110, 694),
    n!(U695, 695),
    n!(Ux2B7, 695),
    n!(Ub1010110111, 695),
    n!(U696, 696),
    n!(Ux2B8, 696),
    n!(Ub1010111000, 696),
    n!(U697, 697),
    n!(Ux2B9, 697),
    n!(Ub1010111001, 697),
    n!(U698, 698),
    n!(Ux2BA, 698),
    n!(Ub1010111010, 698),
    n!(U699, 699),
    n!(Ux2BB, 699),
    n!(Ub1010111011, 699),
    n!(U700, 700),
    n!(Ux2BC, 700),
    n!(Ub1010111100, 700),
    n!(U701, 701),
    n!(Ux2BD, 701),
    n!(Ub1010111101, 701),
    n!(U702, 702),
    n!(Ux2BE, 702),
    n!(Ub1010111110, 702),
    n!(U703, 703),
    n!(Ux2BF, 703),
    n!(Ub1010111111, 703),
    n!(U704, 704),
    n!(Ux2C0, 704),
    n!(Ub1011000000, 704),
    n!(U705, 705),
    n!(Ux2C1, 705),
    n!(Ub1011000001, 705),
    n!(U706, 706),
    n!(Ux2C2, 706),
    n!(Ub1011000010, 706),
    n!(U707, 707),
    n!(Ux2C3, 707),
    n!(Ub1011000011, 707),
    n!(U708, 708),
    n!(Ux2C4, 708),
    n!(Ub1011000100, 708),
    n!(U709, 709),
    n!(Ux2C5, 709),
    n!(Ub1011000101, 709),
    n!(U710, 710),
    n!(Ux2C6, 710),
    n!(Ub1011000110, 710),
    n!(U711, 711),
    n!(Ux2C7, 711),
    n!(Ub1011000111, 711),
    n!(U712, 712),
    n!(Ux2C8, 712),
    n!(Ub1011001000, 712),
    n!(U713, 713),
    n!(Ux2C9, 713),
    n!(Ub1011001001, 713),
    n!(U714, 714),
    n!(Ux2CA, 714),
    n!(Ub1011001010, 714),
    n!(U715, 715),
    n!(Ux2CB, 715),
    n!(Ub1011001011, 715),
    n!(U716, 716),
    n!(Ux2CC, 716),
    n!(Ub1011001100, 716),
    n!(U717, 717),
    n!(Ux2CD, 717),
    n!(Ub1011001101, 717),
    n!(U718, 718),
    n!(Ux2CE, 718),
    n!(Ub1011001110, 718),
    n!(U719, 719),
    n!(Ux2CF, 719),
    n!(Ub1011001111, 719),
    n!(U720, 720),
    n!(Ux2D0, 720),
    n!(Ub1011010000, 720),
    n!(U721, 721),
    n!(Ux2D1, 721),
    n!(Ub1011010001, 721),
    n!(U722, 722),
    n!(Ux2D2, 722),
    n!(Ub1011010010, 722),
    n!(U723, 723),
    n!(Ux2D3, 723),
    n!(Ub1011010011, 723),
    n!(U724, 724),
    n!(Ux2D4, 724),
    n!(Ub1011010100, 724),
    n!(U725, 725),
    n!(Ux2D5, 725),
    n!(Ub1011010101, 725),
    n!(U726, 726),
    n!(Ux2D6, 726),
    n!(Ub1011010110, 726),
    n!(U727, 727),
    n!(Ux2D7, 727),
    n!(Ub1011010111, 727),
    n!(U728, 728),
    n!(Ux2D8, 728),
    n!(Ub1011011000, 728),
    n!(U729, 729),
    n!(Ux2D9, 729),
    n!(Ub1011011001, 729),
    n!(U730, 730),
    n!(Ux2DA, 730),
    n!(Ub1011011010, 730),
    n!(U731, 731),
    n!(Ux2DB, 731),
    n!(Ub1011011011, 731),
    n!(U732, 732),
    n!(Ux2DC, 732),
    n!(Ub1011011100, 732),
    n!(U733, 733),
    n!(Ux2DD, 733),
    n!(Ub1011011101, 733),
    n!(U734, 734),
    n!(Ux2DE, 734),
    n!(Ub1011011110, 734),
    n!(U735, 735),
    n!(Ux2DF, 735),
    n!(Ub1011011111, 735),
    n!(U736, 736),
    n!(Ux2E0, 736),
    n!(Ub1011100000, 736),
    n!(U737, 737),
    n!(Ux2E1, 737),
    n!(Ub1011100001, 737),
    n!(U738, 738),
    n!(Ux2E2, 738),
    n!(Ub1011100010, 738),
    n!(U739, 739),
    n!(Ux2E3, 739),
    n!(Ub1011100011, 739),
    n!(U740, 740),
    n!(Ux2E4, 740),
    n!(Ub1011100100, 740),
    n!(U741, 741),
    n!(Ux2E5, 741),
    n!(Ub1011100101, 741),
    n!(U742, 742),
    n!(Ux2E6, 742),
    n!(Ub1011100110, 742),
    n!(U743, 743),
    n!(Ux2E7, 743),
    n!(Ub1011100111, 743),
    n!(U744, 744),
    n!(Ux2E8, 744),
    n!(Ub1011101000, 744),
    n!(U745, 745),
    n!(Ux2E9, 745),
    n!(Ub1011101001, 745),
    n!(U746, 746),
    n!(Ux2EA, 746),
    n!(Ub1011101010, 746),
    n!(U747, 747),
    n!(Ux2EB, 747),
    n!(Ub1011101011, 747),
    n!(U748, 748),
    n!(Ux2EC, 748),
    n!(Ub1011101100, 748),
    n!(U749, 749),
    n!(Ux2ED, 749),
    n!(Ub1011101101, 749),
    n!(U750, 750),
    n!(Ux2EE, 750),
    n!(Ub1011101110, 750),
    n!(U751, 751),
    n!(Ux2EF, 751),
    n!(Ub1011101111, 751),
    n!(U752, 752),
    n!(Ux2F0, 752),
    n!(Ub1011110000, 752),
    n!(U753, 753),
    n!(Ux2F1, 753),
    n!(Ub1011110001, 753),
    n!(U754, 754),
    n!(Ux2F2, 754),
    n!(Ub1011110010, 754),
    n!(U755, 755),
    n!(Ux2F3, 755),
    n!(Ub1011110011, 755),
    n!(U756, 756),
    n!(Ux2F4, 756),
    n!(Ub1011110100, 756),
    n!(U757, 757),
    n!(Ux2F5, 757),
    n!(Ub1011110101, 757),
    n!(U758, 758),
    n!(Ux2F6, 758),
    n!(Ub1011110110, 758),
    n!(U759, 759),
    n!(Ux2F7, 759),
    n!(Ub1011110111, 759),
    n!(U760, 760),
    n!(Ux2F8, 760),
    n!(Ub1011111000, 760),
    n!(U761, 761),
    n!(Ux2F9, 761),
    n!(Ub1011111001, 761),
    n!(U762, 762),
    n!(Ux2FA, 762),
    n!(Ub1011111010, 762),
    n!(U763, 763),
    n!(Ux2FB, 763),
    n!(Ub1011111011, 763),
    n!(U764, 764),
    n!(Ux2FC, 764),
    n!(Ub1011111100, 764),
    n!(U765, 765),
    n!(Ux2FD, 765),
    n!(Ub1011111101, 765),
    n!(U766, 766),
    n!(Ux2FE, 766),
    n!(Ub1011111110, 766),
    n!(U767, 767),
    n!(Ux2FF, 767),
    n!(Ub1011111111, 767),
    n!(U768, 768),
    n!(Ux300, 768),
    n!(Ub1100000000, 768),
    n!(U769, 769),
    n!(Ux301, 769),
    n!(Ub1100000001, 769),
    n!(U770, 770),
    n!(Ux302, 770),
    n!(Ub1100000010, 770),
    n!(U771, 771),
    n!(Ux303, 771),
    n!(Ub1100000011, 771),
    n!(U772, 772),
    n!(Ux304, 772),
    n!(Ub1100000100, 772),
    n!(U773, 773),
    n!(Ux305, 773),
    n!(Ub1100000101, 773),
    n!(U774, 774),
    n!(Ux306, 774),
    n!(Ub1100000110, 774),
    n!(U775, 775),
    n!(Ux307, 775),
    n!(Ub1100000111, 775),
    n!(U776, 776),
    n!(Ux308, 776),
    n!(Ub1100001000, 776),
    n!(U777, 777),
    n!(Ux309, 777),
    n!(Ub1100001001, 777),
    n!(U778, 778),
    n!(Ux30A, 778),
    n!(Ub1100001010, 778),
    n!(U779, 779),
    n!(Ux30B, 779),
    n!(Ub1100001011, 779),
    n!(U780, 780),
    n!(Ux30C, 780),
    n!(Ub1100001100, 780),
    n!(U781, 781),
    n!(Ux30D, 781),
    n!(Ub1100001101, 781),
    n!(U782, 782),
    n!(Ux30E, 782),
    n!(Ub1100001110, 782),
    n!(U783, 783),
    n!(Ux30F, 783),
    n!(Ub1100001111, 783),
    n!(U784, 784),
    n!(Ux310, 784),
    n!(Ub1100010000, 784),
    n!(U785, 785),
    n!(Ux311, 785),
    n!(Ub1100010001, 785),
    n!(U786, 786),
    n!(Ux312, 786),
    n!(Ub1100010010, 786),
    n!(U787, 787),
    n!(Ux313, 787),
    n!(Ub1100010011, 787),
    n!(U788, 788),
    n!(Ux314, 788),
    n!(Ub1100010100, 788),
    n!(U789, 789),
    n!(Ux315, 789),
    n!(Ub1100010101, 789),
    n!(U790, 790),
    n!(Ux316, 790),
    n!(Ub1100010110, 790),
    n!(U791, 791),
    n!(Ux317, 791),
    n!(Ub1100010111, 791),
    n!(U792, 792),
    n!(Ux318, 792),
    n!(Ub1100011000, 792),
    n!(U793, 793),
    n!(Ux319, 793),
    n!(Ub1100011001, 793),
    n!(U794, 794),
    n!(Ux31A, 794),
    n!(Ub1100011010, 794),
    n!(U795, 795),
    n!(Ux31B, 795),
    n!(Ub1100011011, 795),
    n!(U796, 796),
    n!(Ux31C, 796),
    n!(Ub1100011100, 796),
    n!(U797, 797),
    n!(Ux31D, 797),
    n!(Ub1100011101, 797),
    n!(U798, 798),
    n!(Ux31E, 798),
    n!(Ub1100011110, 798),
    n!(U799, 799),
    n!(Ux31F, 799),
    n!(Ub1100011111, 799),
    n!(U800, 800),
    n!(Ux320, 800),
    n!(Ub1100100000, 800),
    n!(U801, 801),
    n!(Ux321, 801),
    n!(Ub1100100001, 801),
    n!(U802, 802),
    n!(Ux322, 802),
    n!(Ub1100100010, 802),
    n!(U803, 803),
    n!(Ux323, 803),
    n!(Ub1100100011, 803),
    n!(U804, 804),
    n!(Ux324, 804),
    n!(Ub1100100100, 804),
    n!(U805, 805),
    n!(Ux325, 805),
    n!(Ub1100100101, 805),
    n!(U806, 806),
    n!(Ux326, 806),
    n!(Ub1100100110, 806),
    n!(U807, 807),
    n!(Ux327, 807),
    n!(Ub1100100111, 807),
    n!(U808, 808),
    n!(Ux328, 808),
    n!(Ub1100101000, 808),
    n!(U809, 809),
    n!(Ux329, 809),
    n!(Ub1100101001, 809),
    n!(U810, 810),
    n!(Ux32A, 810),
    n!(Ub1100101010, 810),
    n!(U811, 811),
    n!(Ux32B, 811),
    n!(Ub1100101011, 811),
    n!(U812, 812),
    n!(Ux32C, 812),
    n!(Ub1100101100, 812),
    n!(U813, 813),
    n!(Ux32D, 813),
    n!(Ub1100101101, 813),
    n!(U814, 814),
    n!(Ux32E, 814),
    n!(Ub1100101110, 814),
    n!(U815, 815),
    n!(Ux32F, 815),
    n!(Ub1100101111, 815),
    n!(U816, 816),
    n!(Ux330, 816),
    n!(Ub1100110000, 816),
    n!(U817, 817),
    n!(Ux331, 817),
    n!(Ub1100110001, 817),
    n!(U818, 818),
    n!(Ux332, 818),
    n!(Ub1100110010, 818),
    n!(U819, 819),
    n!(Ux333, 819),
    n!(Ub1100110011, 819),
    n!(U820, 820),
    n!(Ux334, 820),
    n!(Ub1100110100, 820),
    n!(U821, 821),
    n!(Ux335, 821),
    n!(Ub1100110101, 821),
    n!(U822, 822),
    n!(Ux336, 822),
    n!(Ub1100110110, 822),
    n!(U823, 823),
    n!(Ux337, 823),
    n!(Ub1100110111, 823),
    n!(U824, 824),
    n!(Ux338, 824),
    n!(Ub1100111000, 824),
    n!(U825, 825),
    n!(Ux339, 825),
    n!(Ub1100111001, 825),
    n!(U826, 826),
    n!(Ux33A, 826),
    n!(Ub1100111010, 826),
    n!(U827, 827),
    n!(Ux33B, 827),
    n!(Ub1100111011, 827),
    n!(U828, 828),
    n!(Ux33C, 828),
    n!(Ub1100111100, 828),
    n!(U829, 829),
    n!(Ux33D, 829),
    n!(Ub1100111101, 829),
    n!(U830, 830),
    n!(Ux33E, 830),
    n!(Ub1100111110, 830),
    n!(U831, 831),
    n!(Ux33F, 831),
    n!(Ub1100111111, 831),
    n!(U832, 832),
    n!(Ux340, 832),
    n!(Ub1101000000, 832),
    n!(U833, 833),
    n!(Ux341, 833),
    n!(Ub1101000001, 833),
    n!(U834, 834),
    n!(Ux342, 834),
    n!(Ub1101000010, 834),
    n!(U835, 835),
    n!(Ux343, 835),
    n!(Ub1101000011, 835),
    n!(U836, 836),
    n!(Ux344, 836),
    n!(Ub1101000100, 836),
    n!(U837, 837),
    n!(Ux345, 837),
    n!(Ub1101000101, 837),
    n!(U838, 838),
    n!(Ux346, 838),
    n!(Ub1101000110, 838),
    n!(U839, 839),
    n!(Ux347, 839),
    n!(Ub1101000111, 839),
    n!(U840, 840),
    n!(Ux348, 840),
    n!(Ub1101001000, 840),
    n!(U841, 841),
    n!(Ux349, 841),
    n!(Ub1101001001, 841),
    n!(U842, 842),
    n!(Ux34A, 842),
    n!(Ub1101001010, 842),
    n!(U843, 843),
    n!(Ux34B, 843),
    n!(Ub1101001011, 843),
    n!(U844, 844),
    n!(Ux34C, 844),
    n!(Ub1101001100, 844),
    n!(U845, 845),
    n!(Ux34D, 845),
    n!(Ub1101001101, 845),
    n!(U846, 846),
    n!(Ux34E, 846),
    n!(Ub1101001110, 846),
    n!(U847, 847),
    n!(Ux34F, 847),
    n!(Ub1101001111, 847),
    n!(U848, 848),
    n!(Ux350, 848),
    n!(Ub1101010000, 848),
    n!(U849, 849),
    n!(Ux351, 849),
    n!(Ub1101010001, 849),
    n!(U850, 850),
    n!(Ux352, 850),
    n!(Ub1101010010, 850),
    n!(U851, 851),
    n!(Ux353, 851),
    n!(Ub1101010011, 851),
    n!(U852, 852),
    n!(Ux354, 852),
    n!(Ub1101010100, 852),
    n!(U853, 853),
    n!(Ux355, 853),
    n!(Ub1101010101, 853),
    n!(U854, 854),
    n!(Ux356, 854),
    n!(Ub1101010110, 854),
    n!(U855, 855),
    n!(Ux357, 855),
    n!(Ub1101010111, 855),
    n!(U856, 856),
    n!(Ux358, 856),
    n!(Ub1101011000, 856),
    n!(U857, 857),
    n!(Ux359, 857),
    n!(Ub1101011001, 857),
    n!(U858, 858),
    n!(Ux35A, 858),
    n!(Ub1101011010, 858),
    n!(U859, 859),
    n!(Ux35B, 859),
    n!(Ub1101011011, 859),
    n!(U860, 860),
    n!(Ux35C, 860),
    n!(Ub1101011100, 860),
    n!(U861, 861),
    n!(Ux35D, 861),
    n!(Ub1101011101, 861),
    n!(U862, 862),
    n!(Ux35E, 862),
    n!(Ub1101011110, 862),
    n!(U863, 863),
    n!(Ux35F, 863),
    n!(Ub1101011111, 863),
    n!(U864, 864),
    n!(Ux360, 864),
    n!(Ub1101100000, 864),
    n!(U865, 865),
    n!(Ux361, 865),
    n!(Ub1101100001, 865),
    n!(U866, 866),
    n!(Ux362, 866),
    n!(Ub1101100010, 866),
    n!(U867, 867),
    n!(Ux363, 867),
    n!(Ub1101100011, 867),
    n!(U868, 868),
    n!(Ux364, 868),
    n!(Ub1101100100, 868),
    n!(U869, 869),
    n!(Ux365, 869),
    n!(Ub1101100101, 869),
    n!(U870, 870),
    n!(Ux366, 870),
    n!(Ub1101100110, 870),
    n!(U871, 871),
    n!(Ux367, 871),
    n!(Ub1101100111, 871),
    n!(U872, 872),
    n!(Ux368, 872),
    n!(Ub1101101000, 872),
    n!(U873, 873),
    n!(Ux369, 873),
    n!(Ub1101101001, 873),
    n!(U874, 874),
    n!(Ux36A, 874),
    n!(Ub1101101010, 874),
    n!(U875, 875),
    n!(Ux36B, 875),
    n!(Ub1101101011, 875),
    n!(U876, 876),
    n!(Ux36C, 876),
    n!(Ub1101101100, 876),
    n!(U877, 877),
    n!(Ux36D, 877),
    n!(Ub1101101101, 877),
    n!(U878, 878),
    n!(Ux36E, 878),
    n!(Ub1101101110, 878),
    n!(U879, 879),
    n!(Ux36F, 879),
    n!(Ub1101101111, 879),
    n!(U880, 880),
    n!(Ux370, 880),
    n!(Ub1101110000, 880),
    n!(U881, 881),
    n!(Ux371, 881),
    n!(Ub1101110001, 881),
    n!(U882, 882),
    n!(Ux372, 882),
    n!(Ub1101110010, 882),
    n!(U883, 883),
    n!(Ux373, 883),
    n!(Ub1101110011, 883),
    n!(U884, 884),
    n!(Ux374, 884),
    n!(Ub1101110100, 884),
    n!(U885, 885),
    n!(Ux375, 885),
    n!(Ub1101110101, 885),
    n!(U886, 886),
    n!(Ux376, 886),
    n!(Ub1101110110, 886),
    n!(U887, 887),
    n!(Ux377, 887),
    n!(Ub1101110111, 887),
    n!(U888, 888),
    n!(Ux378, 888),
    n!(Ub1101111000, 888),
    n!(U889, 889),
    n!(Ux379, 889),
    n!(Ub1101111001, 889),
    n!(U890, 890),
    n!(Ux37A, 890),
    n!(Ub1101111010, 890),
    n!(U891, 891),
    n!(Ux37B, 891),
    n!(Ub1101111011, 891),
    n!(U892, 892),
    n!(Ux37C, 892),
    n!(Ub1101111100, 892),
    n!(U893, 893),
    n!(Ux37D, 893),
    n!(Ub1101111101, 893),
    n!(U894, 894),
    n!(Ux37E, 894),
    n!(Ub1101111110, 894),
    n!(U895, 895),
    n!(Ux37F, 895),
    n!(Ub1101111111, 895),
    n!(U896, 896),
    n!(Ux380, 896),
    n!(Ub1110000000, 896),
    n!(U897, 897),
    n!(Ux381, 897),
    n!(Ub1110000001, 897),
    n!(U898, 898),
    n!(Ux382, 898),
    n!(Ub1110000010, 898),
    n!(U899, 899),
    n!(Ux383, 899),
    n!(Ub1110000011, 899),
    n!(U900, 900),
    n!(Ux384, 900),
    n!(Ub1110000100, 900),
    n!(U901, 901),
    n!(Ux385, 901),
    n!(Ub1110000101, 901),
    n!(U902, 902),
    n!(Ux386, 902),
    n!(Ub1110000110, 902),
    n!(U903, 903),
    n!(Ux387, 903),
    n!(Ub1110000111, 903),
    n!(U904, 904),
    n!(Ux388, 904),
    n!(Ub1110001000, 904),
    n!(U905, 905),
    n!(Ux389, 905),
    n!(Ub1110001001, 905),
    n!(U906, 906),
    n!(Ux38A, 906),
    n!(Ub1110001010, 906),
    n!(U907, 907),
    n!(Ux38B, 907),
    n!(Ub1110001011, 907),
    n!(U908, 908),
    n!(Ux38C, 908),
    n!(Ub1110001100, 908),
    n!(U909, 909),
    n!(Ux38D, 909),
    n!(Ub1110001101, 909),
    n!(U910, 910),
    n!(Ux38E, 910),
    n!(Ub1110001110, 910),
    n!(U911, 911),
    n!(Ux38F, 911),
    n!(Ub1110001111, 911),
    n!(U912, 912),
    n!(Ux390, 912),
    n!(Ub1110010000, 912),
    n!(U913, 913),
    n!(Ux391, 913),
    n!(Ub1110010001, 913),
    n!(U914, 914),
    n!(Ux392, 914),
    n!(Ub1110010010, 914),
    n!(U915, 915),
    n!(Ux393, 915),
    n!(Ub1110010011, 915),
    n!(U916, 916),
    n!(Ux394, 916),
    n!(Ub1110010100, 916),
    n!(U917, 917),
    n!(Ux395, 917),
    n!(Ub1110010101, 917),
    n!(U918, 918),
    n!(Ux396, 918),
    n!(Ub1110010110, 918),
    n!(U919, 919),
    n!(Ux397, 919),
    n!(Ub1110010111, 919),
    n!(U920, 920),
    n!(Ux398, 920),
    n!(Ub1110011000, 920),
    n!(U921, 921),
    n!(Ux399, 921),
    n!(Ub1110011001, 921),
    n!(U922, 922),
    n!(Ux39A, 922),
    n!(Ub1110011010, 922),
    n!(U923, 923),
    n!(Ux39B, 923),
    n!(Ub1110011011, 923),
    n!(U924, 924),
    n!(Ux39C, 924),
    n!(Ub1110011100, 924),
    n!(U925, 925),
    n!(Ux39D, 925),
    n!(Ub1110011101, 925),
    n!(U926, 926),
    n!(Ux39E, 926),
    n!(Ub1110011110, 926),
    n!(U927, 927),
    n!(Ux39F, 927),
    n!(Ub1110011111, 927),
    n!(U928, 928),
    n!(Ux3A0, 928),
    n!(Ub1110100000, 928),
    n!(U929, 929),
    n!(Ux3A1, 929),
    n!(Ub1110100001, 929),
    n!(U930, 930),
    n!(Ux3A2, 930),
    n!(Ub1110100010, 930),
    n!(U931, 931),
    n!(Ux3A3, 931),
    n!(Ub1110100011, 931),
    n!(U932, 932),
    n!(Ux3A4, 932),
    n!(Ub1110100100, 932),
    n!(U933, 933),
    n!(Ux3A5, 933),
    n!(Ub1110100101, 933),
    n!(U934, 934),
    n!(Ux3A6, 934),
    n!(Ub1110100110, 934),
    n!(U935, 935),
    n!(Ux3A7, 935),
    n!(Ub1110100111, 935),
    n!(U936, 936),
    n!(Ux3A8, 936),
    n!(Ub1110101000, 936),
    n!(U937, 937),
    n!(Ux3A9, 937),
    n!(Ub1110101001, 937),
    n!(U938, 938),
    n!(Ux3AA, 938),
    n!(Ub1110101010, 938),
    n!(U939, 939),
    n!(Ux3AB, 939),
    n!(Ub1110101011, 939),
    n!(U940, 940),
    n!(Ux3AC, 940),
    n!(Ub1110101100, 940),
    n!(U941, 941),
    n!(Ux3AD, 941),
    n!(Ub1110101101, 941),
    n!(U942, 942),
    n!(Ux3AE, 942),
    n!(Ub1110101110, 942),
    n!(U943, 943),
    n!(Ux3AF, 943),
    n!(Ub1110101111, 943),
    n!(U944, 944),
    n!(Ux3B0, 944),
    n!(Ub1110110000, 944),
    n!(U945, 945),
    n!(Ux3B1, 945),
    n!(Ub1110110001, 945),
    n!(U946, 946),
    n!(Ux3B2, 946),
    n!(Ub1110110010, 946),
    n!(U947, 947),
    n!(Ux3B3, 947),
    n!(Ub1110110011, 947),
    n!(U948, 948),
    n!(Ux3B4, 948),
    n!(Ub1110110100, 948),
    n!(U949, 949),
    n!(Ux3B5, 949),
    n!(Ub1110110101, 949),
    n!(U950, 950),
    n!(Ux3B6, 950),
    n!(Ub1110110110, 950),
    n!(U951, 951),
    n!(Ux3B7, 951),
    n!(Ub1110110111, 951),
    n!(U952, 952),
    n!(Ux3B8, 952),
    n!(Ub1110111000, 952),
    n!(U953, 953),
    n!(Ux3B9, 953),
    n!(Ub1110111001, 953),
    n!(U954, 954),
    n!(Ux3BA, 954),
    n!(Ub1110111010, 954),
    n!(U955, 955),
    n!(Ux3BB, 955),
    n!(Ub1110111011, 955),
    n!(U956, 956),
    n!(Ux3BC, 956),
    n!(Ub1110111100, 956),
    n!(U957, 957),
    n!(Ux3BD, 957),
    n!(Ub1110111101, 957),
    n!(U958, 958),
    n!(Ux3BE, 958),
    n!(Ub1110111110, 958),
    n!(U959, 959),
    n!(Ux3BF, 959),
    n!(Ub1110111111, 959),
    n!(U960, 960),
    n!(Ux3C0, 960),
    n!(Ub1111000000, 960),
    n!(U961, 961),
    n!(Ux3C1, 961),
    n!(Ub1111000001, 961),
    n!(U962, 962),
    n!(Ux3C2, 962),
    n!(Ub1111000010, 962),
    n!(U963, 963),
    n!(Ux3C3, 963),
    n!(Ub1111000011, 963),
    n!(U964, 964),
    n!(Ux3C4, 964),
    n!(Ub1111000100, 964),
    n!(U965, 965),
    n!(Ux3C5, 965),
    n!(Ub1111000101, 965),
    n!(U966, 966),
    n!(Ux3C6, 966),
    n!(Ub1111000110, 966),
    n!(U967, 967),
    n!(Ux3C7, 967),
    n!(Ub1111000111, 967),
    n!(U968, 968),
    n!(Ux3C8, 968),
    n!(Ub1111001000, 968),
    n!(U969, 969),
    n!(Ux3C9, 969),
    n!(Ub1111001001, 969),
    n!(U970, 970),
    n!(Ux3CA, 970),
    n!(Ub1111001010, 970),
    n!(U971, 971),
    n!(Ux3CB, 971),
    n!(Ub1111001011, 971),
    n!(U972, 972),
    n!(Ux3CC, 972),
    n!(Ub1111001100, 972),
    n!(U973, 973),
    n!(Ux3CD, 973),
    n!(Ub1111001101, 973),
    n!(U974, 974),
    n!(Ux3CE, 974),
    n!(Ub1111001110, 974),
    n!(U975, 975),
    n!(Ux3CF, 975),
    n!(Ub1111001111, 975),
    n!(U976, 976),
    n!(Ux3D0, 976),
    n!(Ub1111010000, 976),
    n!(U977, 977),
    n!(Ux3D1, 977),
    n!(Ub1111010001, 977),
    n!(U978, 978),
    n!(Ux3D2, 978),
    n!(Ub1111010010, 978),
    n!(U979, 979),
    n!(Ux3D3, 979),
    n!(Ub1111010011, 979),
    n!(U980, 980),
    n!(Ux3D4, 980),
    n!(Ub1111010100, 980),
    n!(U981, 981),
    n!(Ux3D5, 981),
    n!(Ub1111010101, 981),
    n!(U982, 982),
    n!(Ux3D6, 982),
    n!(Ub1111010110, 982),
    n!(U983, 983),
    n!(Ux3D7, 983),
    n!(Ub1111010111, 983),
    n!(U984, 984),
    n!(Ux3D8, 984),
    n!(Ub1111011000, 984),
    n!(U985, 985),
    n!(Ux3D9, 985),
    n!(Ub1111011001, 985),
    n!(U986, 986),
    n!(Ux3DA, 986),
    n!(Ub1111011010, 986),
    n!(U987, 987),
    n!(Ux3DB, 987),
    n!(Ub1111011011, 987),
    n!(U988, 988),
    n!(Ux3DC, 988),
    n!(Ub1111011100, 988),
    n!(U989, 989),
    n!(Ux3DD, 989),
    n!(Ub1111011101, 989),
    n!(U990, 990),
    n!(Ux3DE, 990),
    n!(Ub1111011110, 990),
    n!(U991, 991),
    n!(Ux3DF, 991),
    n!(Ub1111011111, 991),
    n!(U992, 992),
    n!(Ux3E0, 992),
    n!(Ub1111100000, 992),
    n!(U993, 993),
    n!(Ux3E1, 993),
    n!(Ub1111100001, 993),
    n!(U994, 994),
    n!(Ux3E2, 994),
    n!(Ub1111100010, 994),
    n!(U995, 995),
    n!(Ux3E3, 995),
    n!(Ub1111100011, 995),
    n!(U996, 996),
    n!(Ux3E4, 996),
    n!(Ub1111100100, 996),
    n!(U997, 997),
    n!(Ux3E5, 997),
    n!(Ub1111100101, 997),
    n!(U998, 998),
    n!(Ux3E6, 998),
    n!(Ub1111100110, 998),
    n!(U999, 999),
    n!(Ux3E7, 999),
    n!(Ub1111100111, 999),
    n!(U1000, 1000),
    n!(Ux3E8, 1000),
    n!(Ub1111101000, 1000),
    n!(U10pow0, 1),
    n!(U10pow1, 10),
    n!(U10pow2, 100),
    n!(U10pow3, 1000),
    n!(U10pow4, 10000),
    n!(U10000, 10000),
    n!(Ux2710, 10000),
    n!(Ub10011100010000, 10000),
    n!(U10pow5, 100000),
    n!(U100000, 100000),
    n!(Ux186A0, 100000),
    n!(Ub11000011010100000, 100000),
    n!(U10pow6, 1000000),
    n!(U1000000, 1000000),
    n!(UxF4240, 1000000),
    n!(Ub11110100001001000000, 1000000),
    n!(U10pow7, 10000000),
    n!(U10000000, 10000000),
    n!(Ux989680, 10000000),
    n!(Ub100110001001011010000000, 10000000),
    n!(U10pow8, 100000000),
    n!(U100000000, 100000000),
    n!(Ux5F5E100, 100000000),
    n!(Ub101111101011110000100000000, 100000000),
    n!(U10pow9, 1000000000),
    n!(U1000000000, 1000000000),
    n!(Ux3B9ACA00, 1000000000),
    n!(Ub111011100110101100101000000000, 1000000000),
    n!(U10pow10, 10000000000),
    n!(U10000000000, 10000000000),
    n!(Ux2540BE400, 10000000000),
    n!(Ub1001010100000010111110010000000000, 10000000000),
    n!(U10pow11, 100000000000),
    n!(U100000000000, 100000000000),
    n!(Ux174876E800, 100000000000),
    n!(Ub1011101001000011101101110100000000000, 100000000000),
    n!(U10pow12, 1000000000000),
    n!(U1000000000000, 1000000000000),
    n!(UxE8D4A51000, 1000000000000),
    n!(Ub1110100011010100101001010001000000000000, 1000000000000),
    n!(U10pow13, 10000000000000),
    n!(U10000000000000, 10000000000000),
    n!(Ux9184E72A000, 10000000000000),
    n!(Ub10010001100001001110011100101010000000000000, 10000000000000),
    n!(U10pow14, 100000000000000),
    n!(U100000000000000, 100000000000000),
    n!(Ux5AF3107A4000, 100000000000000),
    n!(Ub10110101111001100010000011110100100000000000000, 100000000000000),
    n!(U10pow15, 1000000000000000),
    n!(U1000000000000000, 1000000000000000),
    n!(Ux38D7EA4C68000, 1000000000000000),
    n!(Ub11100011010111111010100100110001101000000000000000, 1000000000000000),
    n!(U10pow16, 10000000000000000),
    n!(U10000000000000000, 10000000000000000),
    n!(Ux2386F26FC10000, 10000000000000000),
    n!(Ub100011100001101111001001101111110000010000000000000000, 10000000000000000),
    n!(U10pow17, 100000000000000000),
    n!(U100000000000000000, 100000000000000000),
    n!(Ux16345785D8A0000, 100000000000000000),
    n!(Ub101100011010001010111100001011101100010100000000000000000, 100000000000000000),
    n!(U10pow18, 1000000000000000000),
    n!(U1000000000000000000, 1000000000000000000),
    n!(UxDE0B6B3A7640000, 1000000000000000000),
    n!(Ub110111100000101101101011001110100111011001000000000000000000, 1000000000000000000),
    n!(U10pow19, 10000000000000000000),
    n!(U10000000000000000000, 10000000000000000000),
    n!(Ux8AC7230489E80000, 10000000000000000000),
    n!(Ub1000101011000111001000110000010010001001111010000000000000000000, 10000000000000000000),
    n!(U10pow20, 100000000000000000000),
    n!(U100000000000000000000, 100000000000000000000),
    n!(Ux56BC75E2D63100000, 100000000000000000000),
    n!(Ub1010110101111000111010111100010110101100011000100000000000000000000, 100000000000000000000),
    n!(U10pow21, 1000000000000000000000),
    n!(U1000000000000000000000, 1000000000000000000000),
    n!(Ux3635C9ADC5DEA00000, 1000000000000000000000),
    n!(Ub1101100011010111001001101011011100010111011110101000000000000000000000, 1000000000000000000000),
    n!(U10pow22, 10000000000000000000000),
    n!(U10000000000000000000000, 10000000000000000000000),
    n!(Ux21E19E0C9BAB2400000, 10000000000000000000000),
    n!(Ub10000111100001100111100000110010011011101010110010010000000000000000000000, 10000000000000000000000),
    n!(U10pow23, 100000000000000000000000),
    n!(U100000000000000000000000, 100000000000000000000000),
    n!(Ux152D02C7E14AF6800000, 100000000000000000000000),
    n!(Ub10101001011010000001011000111111000010100101011110110100000000000000000000000, 100000000000000000000000),
    n!(U10pow24, 1000000000000000000000000),
    n!(U1000000000000000000000000, 1000000000000000000000000),
    n!(UxD3C21BCECCEDA1000000, 1000000000000000000000000),
    n!(Ub11010011110000100001101111001110110011001110110110100001000000000000000000000000, 1000000000000000000000000),
    n!(U10pow25, 10000000000000000000000000),
    n!(U10000000000000000000000000, 10000000000000000000000000),
    n!(Ux84595161401484A000000, 10000000000000000000000000),
    n!(Ub100001000101100101010001011000010100000000010100100001001010000000000000000000000000, 10000000000000000000000000),
    n!(U10pow26, 100000000000000000000000000),
    n!(U100000000000000000000000000, 100000000000000000000000000),
    n!(Ux52B7D2DCC80CD2E4000000, 100000000000000000000000000),
    n!(Ub101001010110111110100101101110011001000000011001101001011100100000000000000000000000000, 100000000000000000000000000),
    n!(U10pow27, 1000000000000000000000000000),
    n!(U1000000000000000000000000000, 1000000000000000000000000000),
    n!(Ux33B2E3C9FD0803CE8000000, 1000000000000000000000000000),
    n!(Ub110011101100101110001111001001111111010000100000000011110011101000000000000000000000000000, 1000000000000000000000000000),
    n!(U10pow28, 10000000000000000000000000000),
    n!(U10000000000000000000000000000, 10000000000000000000000000000),
    n!(Ux204FCE5E3E25026110000000, 10000000000000000000000000000),
    n!(Ub1000000100111111001110010111100011111000100101000000100110000100010000000000000000000000000000, 10000000000000000000000000000),
    n!(U10pow29, 100000000000000000000000000000),
    n!(U100000000000000000000000000000, 100000000000000000000000000000),
    n!(Ux1431E0FAE6D7217CAA0000000, 100000000000000000000000000000),
    n!(Ub1010000110001111000001111101011100110110101110010000101111100101010100000000000000000000000000000, 100000000000000000000000000000),
    n!(U10pow30, 1000000000000000000000000000000),
    n!(U1000000000000000000000000000000, 1000000000000000000000000000000),
    n!(UxC9F2C9CD04674EDEA40000000, 1000000000000000000000000000000),
    n!(Ub1100100111110010110010011100110100000100011001110100111011011110101001000000000000000000000000000000, 1000000000000000000000000000000),
    n!(U10pow31, 10000000000000000000000000000000),
    n!(U10000000000000000000000000000000, 10000000000000000000000000000000),
    n!(Ux7E37BE2022C0914B2680000000, 10000000000000000000000000000000),
    n!(Ub1111110001101111011111000100000001000101100000010010001010010110010011010000000000000000000000000000000, 10000000000000000000000000000000),
    n!(U10pow32, 100000000000000000000000000000000),
    n!(U100000000000000000000000000000000, 100000000000000000000000000000000),
    n!(Ux4EE2D6D415B85ACEF8100000000, 100000000000000000000000000000000),
    n!(Ub10011101110001011010110110101000001010110111000010110101100111011111000000100000000000000000000000000000000, 100000000000000000000000000000000),
    n!(U10pow33, 1000000000000000000000000000000000),
    n!(U1000000000000000000000000000000000, 1000000000000000000000000000000000),
    n!(Ux314DC6448D9338C15B0A00000000, 1000000000000000000000000000000000),
    n!(Ub11000101001101110001100100010010001101100100110011100011000001010110110000101000000000000000000000000000000000, 1000000000000000000000000000000000),
    n!(U10pow34, 10000000000000000000000000000000000),
    n!(U10000000000000000000000000000000000, 10000000000000000000000000000000000),
    n!(Ux1ED09BEAD87C0378D8E6400000000, 10000000000000000000000000000000000),
    n!(Ub11110110100001001101111101010110110000111110000000011011110001101100011100110010000000000000000000000000000000000, 10000000000000000000000000000000000),
    n!(U10pow35, 100000000000000000000000000000000000),
    n!(U100000000000000000000000000000000000, 100000000000000000000000000000000000),
    n!(Ux13426172C74D822B878FE800000000, 100000000000000000000000000000000000),
    n!(Ub100110100001001100001011100101100011101001101100000100010101110000111100011111110100000000000000000000000000000000000, 100000000000000000000000000000000000),
    n!(U10pow36, 1000000000000000000000000000000000000),
    n!(U1000000000000000000000000000000000000, 1000000000000000000000000000000000000),
    n!(UxC097CE7BC90715B34B9F1000000000, 1000000000000000000000000000000000000),
    n!(Ub110000001001011111001110011110111100100100000111000101011011001101001011100111110001000000000000000000000000000000000000, 1000000000000000000000000000000000000),
    n!(U10pow37, 10000000000000000000000000000000000000),
    n!(U10000000000000000000000000000000000000, 10000000000000000000000000000000000000),
    n!(Ux785EE10D5DA46D900F436A000000000, 10000000000000000000000000000000000000),
    n!(Ub111100001011110111000010000110101011101101001000110110110010000000011110100001101101010000000000000000000000000000000000000, 10000000000000000000000000000000000000),
    n!(U10pow38, 100000000000000000000000000000000000000),
    n!(U100000000000000000000000000000000000000, 100000000000000000000000000000000000000),
    n!(Ux4B3B4CA85A86C47A098A224000000000, 100000000000000000000000000000000000000),
    n!(Ub1001011001110110100110010101000010110101000011011000100011110100000100110001010001000100100000000000000000000000000000000000000, 100000000000000000000000000000000000000),
    n!(U2pow0, 1),
    n!(U2pow1, 2),
    n!(U2pow2, 4),
    n!(U2pow3, 8),
    n!(U2pow4, 16),
    n!(U2pow5, 32),
    n!(U2pow6, 64),
    n!(U2pow7, 128),
    n!(U2pow8, 256),
    n!(U2pow9, 512),
    n!(U2pow10, 1024),
    n!(U1024, 1024),
    n!(U2pow11, 2048),
    n!(U2048, 2048),
    n!(U2pow12, 4096),
    n!(U4096, 4096),
    n!(U2pow13, 8192),
    n!(U8192, 8192),
    n!(U2pow14, 16384),
    n!(U16384, 16384),
    n!(U2pow15, 32768),
    n!(U32768, 32768),
    n!(U2pow16, 65536),
    n!(U65536, 65536),
    n!(U2pow17, 131072),
    n!(U131072, 131072),
    n!(U2pow18, 262144),
    n!(U262144, 262144),
    n!(U2pow19, 524288),
    n!(U524288, 524288),
    n!(U2pow20, 1048576),
    n!(U1048576, 1048576),
    n!(U2pow21, 2097152),
    n!(U2097152, 2097152),
    n!(U2pow22, 4194304),
    n!(U4194304, 4194304),
    n!(U2pow23, 8388608),
    n!(U8388608, 8388608),
    n!(U2pow24, 16777216),
    n!(U16777216, 16777216),
    n!(U2pow25, 33554432),
    n!(U33554432, 33554432),
    n!(U2pow26, 67108864),
    n!(U67108864, 67108864),
    n!(U2pow27, 134217728),
    n!(U134217728, 134217728),
    n!(U2pow28, 268435456),
    n!(U268435456, 268435456),
    n!(U2pow29, 536870912),
    n!(U536870912, 536870912),
    n!(U2pow30, 1073741824),
    n!(U1073741824, 1073741824),
    n!(U2pow31, 2147483648),
    n!(U2147483648, 2147483648),
    n!(U2pow32, 4294967296),
    n!(U4294967296, 4294967296),
    n!(U2pow33, 8589934592),
    n!(U8589934592, 8589934592),
    n!(U2pow34, 17179869184),
    n!(U17179869184, 17179869184),
    n!(U2pow35, 34359738368),
    n!(U34359738368, 34359738368),
    n!(U2pow36, 68719476736),
    n!(U68719476736, 68719476736),
    n!(U2pow37, 137438953472),
    n!(U137438953472, 137438953472),
    n!(U2pow38, 274877906944),
    n!(U274877906944, 274877906944),
    n!(U2pow39, 549755813888),
    n!(U549755813888, 549755813888),
    n!(U2pow40, 1099511627776),
    n!(U1099511627776, 1099511627776),
    n!(U2pow41, 2199023255552),
    n!(U2199023255552, 2199023255552),
    n!(U2pow42, 4398046511104),
    n!(U4398046511104, 4398046511104),
    n!(U2pow43, 8796093022208),
    n!(U8796093022208, 8796093022208),
    n!(U2pow44, 17592186044416),
    n!(U17592186044416, 17592186044416),
    n!(U2pow45, 35184372088832),
    n!(U35184372088832, 35184372088832),
    n!(U2pow46, 70368744177664),
    n!(U70368744177664, 70368744177664),
    n!(U2pow47, 140737488355328),
    n!(U140737488355328, 140737488355328),
    n!(U2pow48, 281474976710656),
    n!(U281474976710656, 281474976710656),
    n!(U2pow49, 562949953421312),
    n!(U562949953421312, 562949953421312),
    n!(U2pow50, 1125899906842624),
    n!(U1125899906842624, 1125899906842624),
    n!(U2pow51, 2251799813685248),
    n!(U2251799813685248, 2251799813685248),
    n!(U2pow52, 4503599627370496),
    n!(U4503599627370496, 4503599627370496),
    n!(U2pow53, 9007199254740992),
    n!(U9007199254740992, 9007199254740992),
    n!(U2pow54, 18014398509481984),
    n!(U18014398509481984, 18014398509481984),
    n!(U2pow55, 36028797018963968),
    n!(U36028797018963968, 36028797018963968),
    n!(U2pow56, 72057594037927936),
    n!(U72057594037927936, 72057594037927936),
    n!(U2pow57, 144115188075855872),
    n!(U144115188075855872, 144115188075855872),
    n!(U2pow58, 288230376151711744),
    n!(U288230376151711744, 288230376151711744),
    n!(U2pow59, 576460752303423488),
    n!(U576460752303423488, 576460752303423488),
    n!(U2pow60, 1152921504606846976),
    n!(U1152921504606846976, 1152921504606846976),
    n!(U2pow61, 2305843009213693952),
    n!(U2305843009213693952, 2305843009213693952),
    n!(U2pow62, 4611686018427387904),
    n!(U4611686018427387904, 4611686018427387904),
    n!(U2pow63, 9223372036854775808),
    n!(U9223372036854775808, 9223372036854775808),
    n!(U2pow64, 18446744073709551616),
    n!(U18446744073709551616, 18446744073709551616),
    n!(U2pow65, 36893488147419103232),
    n!(U36893488147419103232, 36893488147419103232),
    n!(U2pow66, 73786976294838206464),
    n!(U73786976294838206464, 73786976294838206464),
    n!(U2pow67, 147573952589676412928),
    n!(U147573952589676412928, 147573952589676412928),
    n!(U2pow68, 295147905179352825856),
    n!(U295147905179352825856, 295147905179352825856),
    n!(U2pow69, 590295810358705651712),
    n!(U590295810358705651712, 590295810358705651712),
    n!(U2pow70, 1180591620717411303424),
    n!(U1180591620717411303424, 1180591620717411303424),
    n!(U2pow71, 2361183241434822606848),
    n!(U2361183241434822606848, 2361183241434822606848),
    n!(U2pow72, 4722366482869645213696),
    n!(U4722366482869645213696, 4722366482869645213696),
    n!(U2pow73, 9444732965739290427392),
    n!(U9444732965739290427392, 9444732965739290427392),
    n!(U2pow74, 18889465931478580854784),
    n!(U18889465931478580854784, 18889465931478580854784),
    n!(U2pow75, 37778931862957161709568),
    n!(U37778931862957161709568, 37778931862957161709568),
    n!(U2pow76, 75557863725914323419136),
    n!(U75557863725914323419136, 75557863725914323419136),
    n!(U2pow77, 151115727451828646838272),
    n!(U151115727451828646838272, 151115727451828646838272),
    n!(U2pow78, 302231454903657293676544),
    n!(U302231454903657293676544, 302231454903657293676544),
    n!(U2pow79, 604462909807314587353088),
    n!(U604462909807314587353088, 604462909807314587353088),
    n!(U2pow80, 1208925819614629174706176),
    n!(U1208925819614629174706176, 1208925819614629174706176),
    n!(U2pow81, 2417851639229258349412352),
    n!(U2417851639229258349412352, 2417851639229258349412352),
    n!(U2pow82, 4835703278458516698824704),
    n!(U4835703278458516698824704, 4835703278458516698824704),
    n!(U2pow83, 9671406556917033397649408),
    n!(U9671406556917033397649408, 9671406556917033397649408),
    n!(U2pow84, 19342813113834066795298816),
    n!(U19342813113834066795298816, 19342813113834066795298816),
    n!(U2pow85, 38685626227668133590597632),
    n!(U38685626227668133590597632, 38685626227668133590597632),
    n!(U2pow86, 77371252455336267181195264),
    n!(U77371252455336267181195264, 77371252455336267181195264),
    n!(U2pow87, 154742504910672534362390528),
    n!(U154742504910672534362390528, 154742504910672534362390528),
    n!(U2pow88, 309485009821345068724781056),
    n!(U309485009821345068724781056, 309485009821345068724781056),
    n!(U2pow89, 618970019642690137449562112),
    n!(U618970019642690137449562112, 618970019642690137449562112),
    n!(U2pow90, 1237940039285380274899124224),
    n!(U1237940039285380274899124224, 1237940039285380274899124224),
    n!(U2pow91, 2475880078570760549798248448),
    n!(U2475880078570760549798248448, 2475880078570760549798248448),
    n!(U2pow92, 4951760157141521099596496896),
    n!(U4951760157141521099596496896, 4951760157141521099596496896),
    n!(U2pow93, 9903520314283042199192993792),
    n!(U9903520314283042199192993792, 9903520314283042199192993792),
    n!(U2pow94, 19807040628566084398385987584),
    n!(U19807040628566084398385987584, 19807040628566084398385987584),
    n!(U2pow95, 39614081257132168796771975168),
    n!(U39614081257132168796771975168, 39614081257132168796771975168),
    n!(U2pow96, 79228162514264337593543950336),
    n!(U79228162514264337593543950336, 79228162514264337593543950336),
    n!(U2pow97, 158456325028528675187087900672),
    n!(U158456325028528675187087900672, 158456325028528675187087900672),
    n!(U2pow98, 316912650057057350374175801344),
    n!(U316912650057057350374175801344, 316912650057057350374175801344),
    n!(U2pow99, 633825300114114700748351602688),
    n!(U633825300114114700748351602688, 633825300114114700748351602688),
    n!(U2pow100, 1267650600228229401496703205376),
    n!(U1267650600228229401496703205376, 1267650600228229401496703205376),
    n!(U2pow101, 2535301200456458802993406410752),
    n!(U2535301200456458802993406410752, 2535301200456458802993406410752),
    n!(U2pow102, 5070602400912917605986812821504),
    n!(U5070602400912917605986812821504, 5070602400912917605986812821504),
    n!(U2pow103, 10141204801825835211973625643008),
    n!(U10141204801825835211973625643008, 10141204801825835211973625643008),
    n!(U2pow104, 20282409603651670423947251286016),
    n!(U20282409603651670423947251286016, 20282409603651670423947251286016),
    n!(U2pow105, 40564819207303340847894502572032),
    n!(U40564819207303340847894502572032, 40564819207303340847894502572032),
    n!(U2pow106, 81129638414606681695789005144064),
    n!(U81129638414606681695789005144064, 81129638414606681695789005144064),
    n!(U2pow107, 162259276829213363391578010288128),
    n!(U162259276829213363391578010288128, 162259276829213363391578010288128),
    n!(U2pow108, 324518553658426726783156020576256),
    n!(U324518553658426726783156020576256, 324518553658426726783156020576256),
    n!(U2pow109, 649037107316853453566312041152512),
    n!(U649037107316853453566312041152512, 649037107316853453566312041152512),
    n!(U2pow110, 1298074214633706907132624082305024),
    n!(U1298074214633706907132624082305024, 1298074214633706907132624082305024),
    n!(U2pow111, 2596148429267413814265248164610048),
    n!(U2596148429267413814265248164610048, 2596148429267413814265248164610048),
    n!(U2pow112, 5192296858534827628530496329220096),
    n!(U5192296858534827628530496329220096, 5192296858534827628530496329220096),
    n!(U2pow113, 10384593717069655257060992658440192),
    n!(U10384593717069655257060992658440192, 10384593717069655257060992658440192),
    n!(U2pow114, 20769187434139310514121985316880384),
    n!(U20769187434139310514121985316880384, 20769187434139310514121985316880384),
    n!(U2pow115, 41538374868278621028243970633760768),
    n!(U41538374868278621028243970633760768, 41538374868278621028243970633760768),
    n!(U2pow116, 83076749736557242056487941267521536),
    n!(U83076749736557242056487941267521536, 83076749736557242056487941267521536),
    n!(U2pow117, 166153499473114484112975882535043072),
    n!(U166153499473114484112975882535043072, 166153499473114484112975882535043072),
    n!(U2pow118, 332306998946228968225951765070086144),
    n!(U332306998946228968225951765070086144, 332306998946228968225951765070086144),
    n!(U2pow119, 664613997892457936451903530140172288),
    n!(U664613997892457936451903530140172288, 664613997892457936451903530140172288),
    n!(U2pow120, 1329227995784915872903807060280344576),
    n!(U1329227995784915872903807060280344576, 1329227995784915872903807060280344576),
    n!(U2pow121, 2658455991569831745807614120560689152),
    n!(U2658455991569831745807614120560689152, 2658455991569831745807614120560689152),
    n!(U2pow122, 5316911983139663491615228241121378304),
    n!(U5316911983139663491615228241121378304, 5316911983139663491615228241121378304),
    n!(U2pow123, 10633823966279326983230456482242756608),
    n!(U10633823966279326983230456482242756608, 10633823966279326983230456482242756608),
    n!(U2pow124, 21267647932558653966460912964485513216),
    n!(U21267647932558653966460912964485513216, 21267647932558653966460912964485513216),
    n!(U2pow125, 42535295865117307932921825928971026432),
    n!(U42535295865117307932921825928971026432, 42535295865117307932921825928971026432),
    n!(U2pow126, 85070591730234615865843651857942052864),
    n!(U85070591730234615865843651857942052864, 85070591730234615865843651857942052864),
    n!(U2pow127, 170141183460469231731687303715884105728),
    n!(U170141183460469231731687303715884105728, 170141183460469231731687303715884105728),
];
