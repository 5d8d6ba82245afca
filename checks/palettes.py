"""The palettes of the machine formats as published: (colour, description, catalogue number) by index."""
PEC = [
    None,
    (0x0E1F7C, 'Prussian Blue', '1'),
    (0x0A55A3, 'Blue', '2'),
    (0x008777, 'Teal Green', '3'),
    (0x4B6BAF, 'Cornflower Blue', '4'),
    (0xED171F, 'Red', '5'),
    (0xD15C00, 'Reddish Brown', '6'),
    (0x913697, 'Magenta', '7'),
    (0xE49ACB, 'Light Lilac', '8'),
    (0x915FAC, 'Lilac', '9'),
    (0x9ED67D, 'Mint Green', '10'),
    (0xE8A900, 'Deep Gold', '11'),
    (0xFEBA35, 'Orange', '12'),
    (0xFFFF00, 'Yellow', '13'),
    (0x70BC1F, 'Lime Green', '14'),
    (0xBA9800, 'Brass', '15'),
    (0xA8A8A8, 'Silver', '16'),
    (0x7D6F00, 'Russet Brown', '17'),
    (0xFFFFB3, 'Cream Brown', '18'),
    (0x4F5556, 'Pewter', '19'),
    (0x000000, 'Black', '20'),
    (0x0B3D91, 'Ultramarine', '21'),
    (0x770176, 'Royal Purple', '22'),
    (0x293133, 'Dark Gray', '23'),
    (0x2A1301, 'Dark Brown', '24'),
    (0xF64A8A, 'Deep Rose', '25'),
    (0xB27624, 'Light Brown', '26'),
    (0xFCBBC5, 'Salmon Pink', '27'),
    (0xFE370F, 'Vermilion', '28'),
    (0xF0F0F0, 'White', '29'),
    (0x6A1C8A, 'Violet', '30'),
    (0xA8DDC4, 'Seacrest', '31'),
    (0x2584BB, 'Sky Blue', '32'),
    (0xFEB343, 'Pumpkin', '33'),
    (0xFFF36B, 'Cream Yellow', '34'),
    (0xD0A660, 'Khaki', '35'),
    (0xD15400, 'Clay Brown', '36'),
    (0x66BA49, 'Leaf Green', '37'),
    (0x134A46, 'Peacock Blue', '38'),
    (0x878787, 'Gray', '39'),
    (0xD8CCC6, 'Warm Gray', '40'),
    (0x435607, 'Dark Olive', '41'),
    (0xFDD9DE, 'Flesh Pink', '42'),
    (0xF993BC, 'Pink', '43'),
    (0x003822, 'Deep Green', '44'),
    (0xB2AFD4, 'Lavender', '45'),
    (0x686AB0, 'Wisteria Violet', '46'),
    (0xEFE3B9, 'Beige', '47'),
    (0xF73866, 'Carmine', '48'),
    (0xB54B64, 'Amber Red', '49'),
    (0x132B1A, 'Olive Green', '50'),
    (0xC70156, 'Dark Fuchsia', '51'),
    (0xFE9E32, 'Tangerine', '52'),
    (0xA8DEEB, 'Light Blue', '53'),
    (0x00673E, 'Emerald Green', '54'),
    (0x4E2990, 'Purple', '55'),
    (0x2F7E20, 'Moss Green', '56'),
    (0xFFCCCC, 'Flesh Pink', '57'),
    (0xFFD911, 'Harvest Gold', '58'),
    (0x095BA6, 'Electric Blue', '59'),
    (0xF0F970, 'Lemon Yellow', '60'),
    (0xE3F35B, 'Fresh Green', '61'),
    (0xFF9900, 'Orange', '62'),
    (0xFFF08D, 'Cream Yellow', '63'),
    (0xFFC8C8, 'Applique', '64'),
]
PEC_BRAND = ('Brother', 'Brother')

JEF = [
    None,
    (0x000000, 'Black', '002'),
    (0xFFFFFF, 'White', '001'),
    (0xFFFF17, 'Yellow', '204'),
    (0xFF6600, 'Orange', '203'),
    (0x2F5933, 'Olive Green', '219'),
    (0x237336, 'Green', '226'),
    (0x65C2C8, 'Sky', '217'),
    (0xAB5A96, 'Purple', '208'),
    (0xF669A0, 'Pink', '201'),
    (0xFF0000, 'Red', '225'),
    (0xB1704E, 'Brown', '214'),
    (0x0B2F84, 'Blue', '207'),
    (0xE4C35D, 'Gold', '003'),
    (0x481A05, 'Dark Brown', '205'),
    (0xAC9CC7, 'Pale Violet', '209'),
    (0xFCF294, 'Pale Yellow', '210'),
    (0xF999B7, 'Pale Pink', '211'),
    (0xFAB381, 'Peach', '212'),
    (0xC9A480, 'Beige', '213'),
    (0x970533, 'Wine Red', '215'),
    (0xA0B8CC, 'Pale Sky', '216'),
    (0x7FC21C, 'Yellow Green', '218'),
    (0xE5E5E5, 'Silver Gray', '220'),
    (0x889B9B, 'Gray', '221'),
    (0x98D6BD, 'Pale Aqua', '227'),
    (0xB2E1E3, 'Baby Blue', '228'),
    (0x368BA0, 'Powder Blue', '229'),
    (0x4F83AB, 'Bright Blue', '230'),
    (0x386A91, 'Slate Blue', '231'),
    (0x071650, 'Navy Blue', '232'),
    (0xF999A2, 'Salmon Pink', '233'),
    (0xF9676B, 'Coral', '234'),
    (0xE3311F, 'Burnt Orange', '235'),
    (0xE2A188, 'Cinnamon', '236'),
    (0xB59474, 'Umber', '237'),
    (0xE4CF99, 'Blond', '238'),
    (0xFFCB00, 'Sunflower', '239'),
    (0xE1ADD4, 'Orchid Pink', '240'),
    (0xC3007E, 'Peony Purple', '241'),
    (0x80004B, 'Burgundy', '242'),
    (0x540571, 'Royal Purple', '243'),
    (0xB10525, 'Cardinal Red', '244'),
    (0xCAE0C0, 'Opal Green', '245'),
    (0x899856, 'Moss Green', '246'),
    (0x5C941A, 'Meadow Green', '247'),
    (0x003114, 'Dark Green', '248'),
    (0x5DAE94, 'Aquamarine', '249'),
    (0x4CBF8F, 'Emerald Green', '250'),
    (0x007772, 'Peacock Green', '251'),
    (0x595B61, 'Dark Gray', '252'),
    (0xFFFFF2, 'Ivory White', '253'),
    (0xB15818, 'Hazel', '254'),
    (0xCB8A07, 'Toast', '255'),
    (0x986C80, 'Salmon', '256'),
    (0x98692D, 'Cocoa Brown', '257'),
    (0x4D3419, 'Sienna', '258'),
    (0x4C330B, 'Sepia', '259'),
    (0x33200A, 'Dark Sepia', '260'),
    (0x523A97, 'Violet Blue', '261'),
    (0x0D217E, 'Blue Ink', '262'),
    (0x1E77AC, 'Sola Blue', '263'),
    (0xB2DD53, 'Green Dust', '264'),
    (0xF33689, 'Crimson', '265'),
    (0xDE649E, 'Floral Pink', '266'),
    (0x984161, 'Wine', '267'),
    (0x4C5612, 'Olive Drab', '268'),
    (0x4C881F, 'Meadow', '269'),
    (0xE4DE79, 'Mustard', '270'),
    (0xCB8A1A, 'Yellow Ocher', '271'),
    (0xCBA21C, 'Old Gold', '272'),
    (0xFF9805, 'Honey Dew', '273'),
    (0xFCB257, 'Tangerine', '274'),
    (0xFFE505, 'Canary Yellow', '275'),
    (0xF0331F, 'Vermilion', '202'),
    (0x1A842D, 'Bright Green', '206'),
    (0x386CAE, 'Ocean Blue', '222'),
    (0xE3C4B4, 'Beige Gray', '223'),
    (0xE3AC81, 'Bamboo', '224'),
]
JEF_BRAND = ('Jef', 'Jef')

SEW = [
    (0x000000, 'Unknown', '0'),
    (0x000000, 'Black', '1'),
    (0xFFFFFF, 'White', '2'),
    (0xFFFF17, 'Sunflower', '3'),
    (0xFAA060, 'Hazel', '4'),
    (0x5C7649, 'Green Dust', '5'),
    (0x40C030, 'Green', '6'),
    (0x65C2C8, 'Sky', '7'),
    (0xAC80BE, 'Purple', '8'),
    (0xF5BCCB, 'Pink', '9'),
    (0xFF0000, 'Red', '10'),
    (0xC08000, 'Brown', '11'),
    (0x0000F0, 'Blue', '12'),
    (0xE4C35D, 'Gold', '13'),
    (0xA52A2A, 'Dark Brown', '14'),
    (0xD5B0D4, 'Pale Violet', '15'),
    (0xFCF294, 'Pale Yellow', '16'),
    (0xF0D0C0, 'Pale Pink', '17'),
    (0xFFC000, 'Peach', '18'),
    (0xC9A480, 'Beige', '19'),
    (0x9B3D4B, 'Wine Red', '20'),
    (0xA0B8CC, 'Pale Sky', '21'),
    (0x7FC21C, 'Yellow Green', '22'),
    (0xB9B9B9, 'Silver Grey', '23'),
    (0xA0A0A0, 'Grey', '24'),
    (0x98D6BD, 'Pale Aqua', '25'),
    (0xB8F0F0, 'Baby Blue', '26'),
    (0x368BA0, 'Powder Blue', '27'),
    (0x4F83AB, 'Bright Blue', '28'),
    (0x386A91, 'Slate Blue', '29'),
    (0x00206B, 'Nave Blue', '30'),
    (0xE5C5CA, 'Salmon Pink', '31'),
    (0xF9676B, 'Coral', '32'),
    (0xE3311F, 'Burnt Orange', '33'),
    (0xE2A188, 'Cinnamon', '34'),
    (0xB59474, 'Umber', '35'),
    (0xE4CF99, 'Blonde', '36'),
    (0xE1CB00, 'Sunflower', '37'),
    (0xE1ADD4, 'Orchid Pink', '38'),
    (0xC3007E, 'Peony Purple', '39'),
    (0x80004B, 'Burgundy', '40'),
    (0xA060B0, 'Royal Purple', '41'),
    (0xC04020, 'Cardinal Red', '42'),
    (0xCAE0C0, 'Opal Green', '43'),
    (0x899856, 'Moss Green', '44'),
    (0x00AA00, 'Meadow Green', '45'),
    (0x218A21, 'Dark Green', '46'),
    (0x5DAE94, 'Aquamarine', '47'),
    (0x4CBF8F, 'Emerald Green', '48'),
    (0x007772, 'Peacock Green', '49'),
    (0x707070, 'Dark Grey', '50'),
    (0xF2FFFF, 'Ivory White', '51'),
    (0xB15818, 'Hazel', '52'),
    (0xCB8A07, 'Toast', '53'),
    (0xF7927B, 'Salmon', '54'),
    (0x98692D, 'Cocoa Brown', '55'),
    (0xA27148, 'Sienna', '56'),
    (0x7B554A, 'Sepia', '57'),
    (0x4F3946, 'Dark Sepia', '58'),
    (0x523A97, 'Violet Blue', '59'),
    (0x0000A0, 'Blue Ink', '60'),
    (0x0096DE, 'Solar Blue', '61'),
    (0xB2DD53, 'Green Dust', '62'),
    (0xFA8FBB, 'Crimson', '63'),
    (0xDE649E, 'Floral Pink', '64'),
    (0xB55066, 'Wine', '65'),
    (0x5E5747, 'Olive Drab', '66'),
    (0x4C881F, 'Meadow', '67'),
    (0xE4DC79, 'Canary Yellow', '68'),
    (0xCB8A1A, 'Toast', '69'),
    (0xC6AA42, 'Beige', '70'),
    (0xECB02C, 'Honey Dew', '71'),
    (0xF88040, 'Tangerine', '72'),
    (0xFFE505, 'Ocean Blue', '73'),
    (0xFA7A7A, 'Sepia', '74'),
    (0x6BE000, 'Royal Purple', '75'),
    (0x386CAE, 'Yellow Ocher', '76'),
    (0xD0BAB0, 'Beige Grey', '77'),
    (0xE3BE81, 'Bamboo', '78'),
]
SEW_BRAND = ('Sew', 'Sew')

HUS = [
    (0x000000, 'Black', '026'),
    (0x0000E7, 'Blue', '005'),
    (0x00C600, 'Green', '002'),
    (0xFF0000, 'Red', '014'),
    (0x840084, 'Purple', '008'),
    (0xFFFF00, 'Yellow', '020'),
    (0x848484, 'Grey', '024'),
    (0x8484E7, 'Light Blue', '006'),
    (0x00FF84, 'Light Green', '003'),
    (0xFF7B31, 'Orange', '017'),
    (0xFF8CA5, 'Pink', '011'),
    (0x845200, 'Brown', '028'),
    (0xFFFFFF, 'White', '022'),
    (0x000084, 'Dark Blue', '004'),
    (0x008400, 'Dark Green', '001'),
    (0x7B0000, 'Dark Red', '013'),
    (0xFF6384, 'Light Red', '015'),
    (0x522952, 'Dark Purple', '007'),
    (0xFF00FF, 'Light Purple', '009'),
    (0xFFDE00, 'Dark Yellow', '019'),
    (0xFFFF9C, 'Light Yellow', '021'),
    (0x525252, 'Dark Grey', '025'),
    (0xD6D6D6, 'Light Grey', '023'),
    (0xFF5208, 'Dark Orange', '016'),
    (0xFF9C5A, 'Light Orange', '018'),
    (0xFF52B5, 'Dark Pink', '010'),
    (0xFFC6DE, 'Light Pink', '012'),
    (0x523100, 'Dark Brown', '027'),
    (0xB5A584, 'Light Brown', '029'),
]
HUS_BRAND = ('Hus', 'Hus')

SHV = [
    (0x000000, 'Black', '0'),
    (0x0000FF, 'Blue', '1'),
    (0x33CC66, 'Green', '2'),
    (0xFF0000, 'Red', '3'),
    (0xFF00FF, 'Purple', '4'),
    (0xFFFF00, 'Yellow', '5'),
    (0x7F7F7F, 'Gray', '6'),
    (0x339AFF, 'Light Blue', '7'),
    (0x00FF00, 'Light Green', '8'),
    (0xFF7F00, 'Orange', '9'),
    (0xFFA0B4, 'Pink', '10'),
    (0x994B00, 'Brown', '11'),
    (0xFFFFFF, 'White', '12'),
    (0x000000, 'Black', '13'),
    (0x000000, 'Black', '14'),
    (0x000000, 'Black', '15'),
    (0x000000, 'Black', '16'),
    (0x000000, 'Black', '17'),
    (0x000000, 'Black', '18'),
    (0xFF7F7F, 'Light Red', '19'),
    (0xFF7FFF, 'Light Purple', '20'),
    (0xFFFF99, 'Light Yellow', '21'),
    (0xC0C0C0, 'Light Gray', '22'),
    (0x000000, 'Black', '23'),
    (0x000000, 'Black', '24'),
    (0xFFA541, 'Light Orange', '25'),
    (0xFFCCCC, 'Light Pink', '26'),
    (0xAF5A0A, 'Light Brown', '27'),
    (0x000000, 'Black', '28'),
    (0x000000, 'Black', '29'),
    (0x000000, 'Black', '30'),
    (0x000000, 'Black', '31'),
    (0x000000, 'Black', '32'),
    (0x00007F, 'Dark Blue', '33'),
    (0x007F00, 'Dark Green', '34'),
    (0x7F0000, 'Dark Red', '35'),
    (0x7F007F, 'Dark Purple', '36'),
    (0xC8C800, 'Dark Yellow', '37'),
    (0x3C3C3C, 'Dark Gray', '38'),
    (0x000000, 'Black', '39'),
    (0x000000, 'Black', '40'),
    (0xE83F00, 'Dark Orange', '41'),
    (0xFF667A, 'Dark Pink', '42'),
]
SHV_BRAND = ('Shv', 'Shv')

