// Generated by tools/gen_unicode.py from the Unicode character database; see there.
#pragma once
#include <cstdint>
#include <cstddef>
namespace unicode14
{
// value in the low byte, first code point of the run above it
inline constexpr std::uint32_t ws[22] = {
    0x0,0x901,0xe00,0x2001,0x2100,0x8501,0x8600,0xa001,0xa100,0x168001,0x168100,0x200001,0x200b00,0x202801,0x202a00,0x202f01,
    0x203000,0x205f01,0x206000,0x300001,0x300100,0x11000000,
};
inline constexpr std::uint32_t dw[244] = {
    0x0,0x110001,0x116000,0x231a01,0x231c00,0x232901,0x232b00,0x23e901,0x23ed00,0x23f001,0x23f100,0x23f301,0x23f400,0x25fd01,0x25ff00,0x261401,
    0x261600,0x264801,0x265400,0x267f01,0x268000,0x269301,0x269400,0x26a101,0x26a200,0x26aa01,0x26ac00,0x26bd01,0x26bf00,0x26c401,0x26c600,0x26ce01,
    0x26cf00,0x26d401,0x26d500,0x26ea01,0x26eb00,0x26f201,0x26f400,0x26f501,0x26f600,0x26fa01,0x26fb00,0x26fd01,0x26fe00,0x270501,0x270600,0x270a01,
    0x270c00,0x272801,0x272900,0x274c01,0x274d00,0x274e01,0x274f00,0x275301,0x275600,0x275701,0x275800,0x279501,0x279800,0x27b001,0x27b100,0x27bf01,
    0x27c000,0x2b1b01,0x2b1d00,0x2b5001,0x2b5100,0x2b5501,0x2b5600,0x2e8001,0x2e9a00,0x2e9b01,0x2ef400,0x2f0001,0x2fd600,0x2ff001,0x2ffc00,0x300001,
    0x303f00,0x304101,0x309700,0x309901,0x310000,0x310501,0x313000,0x313101,0x318f00,0x319001,0x31e400,0x31f001,0x321f00,0x322001,0x324800,0x325001,
    0x4dc000,0x4e0001,0xa48d00,0xa49001,0xa4c700,0xa96001,0xa97d00,0xac0001,0xd7a400,0xf90001,0xfb0000,0xfe1001,0xfe1a00,0xfe3001,0xfe5300,0xfe5401,
    0xfe6700,0xfe6801,0xfe6c00,0xff0101,0xff6100,0xffe001,0xffe700,0x16fe001,0x16fe500,0x16ff001,0x16ff200,0x1700001,0x187f800,0x1880001,0x18cd600,0x18d0001,
    0x18d0900,0x1aff001,0x1aff400,0x1aff501,0x1affc00,0x1affd01,0x1afff00,0x1b00001,0x1b12300,0x1b15001,0x1b15300,0x1b16401,0x1b16800,0x1b17001,0x1b2fc00,0x1f00401,
    0x1f00500,0x1f0cf01,0x1f0d000,0x1f18e01,0x1f18f00,0x1f19101,0x1f19b00,0x1f20001,0x1f20300,0x1f21001,0x1f23c00,0x1f24001,0x1f24900,0x1f25001,0x1f25200,0x1f26001,
    0x1f26600,0x1f30001,0x1f32100,0x1f32d01,0x1f33600,0x1f33701,0x1f37d00,0x1f37e01,0x1f39400,0x1f3a001,0x1f3cb00,0x1f3cf01,0x1f3d400,0x1f3e001,0x1f3f100,0x1f3f401,
    0x1f3f500,0x1f3f801,0x1f43f00,0x1f44001,0x1f44100,0x1f44201,0x1f4fd00,0x1f4ff01,0x1f53e00,0x1f54b01,0x1f54f00,0x1f55001,0x1f56800,0x1f57a01,0x1f57b00,0x1f59501,
    0x1f59700,0x1f5a401,0x1f5a500,0x1f5fb01,0x1f65000,0x1f68001,0x1f6c600,0x1f6cc01,0x1f6cd00,0x1f6d001,0x1f6d300,0x1f6d501,0x1f6d800,0x1f6dd01,0x1f6e000,0x1f6eb01,
    0x1f6ed00,0x1f6f401,0x1f6fd00,0x1f7e001,0x1f7ec00,0x1f7f001,0x1f7f100,0x1f90c01,0x1f93b00,0x1f93c01,0x1f94600,0x1f94701,0x1fa0000,0x1fa7001,0x1fa7500,0x1fa7801,
    0x1fa7d00,0x1fa8001,0x1fa8700,0x1fa9001,0x1faad00,0x1fab001,0x1fabb00,0x1fac001,0x1fac600,0x1fad001,0x1fada00,0x1fae001,0x1fae800,0x1faf001,0x1faf700,0x2000001,
    0x2fffe00,0x3000001,0x3fffe00,0x11000000,
};
inline constexpr std::uint32_t zw[668] = {
    0x0,0x30001,0x37000,0x48301,0x48a00,0x59101,0x5be00,0x5bf01,0x5c000,0x5c101,0x5c300,0x5c401,0x5c600,0x5c701,0x5c800,0x61001,
    0x61b00,0x64b01,0x66000,0x67001,0x67100,0x6d601,0x6dd00,0x6df01,0x6e500,0x6e701,0x6e900,0x6ea01,0x6ee00,0x71101,0x71200,0x73001,
    0x74b00,0x7a601,0x7b100,0x7eb01,0x7f400,0x7fd01,0x7fe00,0x81601,0x81a00,0x81b01,0x82400,0x82501,0x82800,0x82901,0x82e00,0x85901,
    0x85c00,0x89801,0x8a000,0x8ca01,0x8e200,0x8e301,0x90300,0x93a01,0x93b00,0x93c01,0x93d00,0x94101,0x94900,0x94d01,0x94e00,0x95101,
    0x95800,0x96201,0x96400,0x98101,0x98200,0x9bc01,0x9bd00,0x9c101,0x9c500,0x9cd01,0x9ce00,0x9e201,0x9e400,0x9fe01,0x9ff00,0xa0101,
    0xa0300,0xa3c01,0xa3d00,0xa4101,0xa4300,0xa4701,0xa4900,0xa4b01,0xa4e00,0xa5101,0xa5200,0xa7001,0xa7200,0xa7501,0xa7600,0xa8101,
    0xa8300,0xabc01,0xabd00,0xac101,0xac600,0xac701,0xac900,0xacd01,0xace00,0xae201,0xae400,0xafa01,0xb0000,0xb0101,0xb0200,0xb3c01,
    0xb3d00,0xb3f01,0xb4000,0xb4101,0xb4500,0xb4d01,0xb4e00,0xb5501,0xb5700,0xb6201,0xb6400,0xb8201,0xb8300,0xbc001,0xbc100,0xbcd01,
    0xbce00,0xc0001,0xc0100,0xc0401,0xc0500,0xc3c01,0xc3d00,0xc3e01,0xc4100,0xc4601,0xc4900,0xc4a01,0xc4e00,0xc5501,0xc5700,0xc6201,
    0xc6400,0xc8101,0xc8200,0xcbc01,0xcbd00,0xcbf01,0xcc000,0xcc601,0xcc700,0xccc01,0xcce00,0xce201,0xce400,0xd0001,0xd0200,0xd3b01,
    0xd3d00,0xd4101,0xd4500,0xd4d01,0xd4e00,0xd6201,0xd6400,0xd8101,0xd8200,0xdca01,0xdcb00,0xdd201,0xdd500,0xdd601,0xdd700,0xe3101,
    0xe3200,0xe3401,0xe3b00,0xe4701,0xe4f00,0xeb101,0xeb200,0xeb401,0xebd00,0xec801,0xece00,0xf1801,0xf1a00,0xf3501,0xf3600,0xf3701,
    0xf3800,0xf3901,0xf3a00,0xf7101,0xf7f00,0xf8001,0xf8500,0xf8601,0xf8800,0xf8d01,0xf9800,0xf9901,0xfbd00,0xfc601,0xfc700,0x102d01,
    0x103100,0x103201,0x103800,0x103901,0x103b00,0x103d01,0x103f00,0x105801,0x105a00,0x105e01,0x106100,0x107101,0x107500,0x108201,0x108300,0x108501,
    0x108700,0x108d01,0x108e00,0x109d01,0x109e00,0x135d01,0x136000,0x171201,0x171500,0x173201,0x173400,0x175201,0x175400,0x177201,0x177400,0x17b401,
    0x17b600,0x17b701,0x17be00,0x17c601,0x17c700,0x17c901,0x17d400,0x17dd01,0x17de00,0x180b01,0x180e00,0x180f01,0x181000,0x188501,0x188700,0x18a901,
    0x18aa00,0x192001,0x192300,0x192701,0x192900,0x193201,0x193300,0x193901,0x193c00,0x1a1701,0x1a1900,0x1a1b01,0x1a1c00,0x1a5601,0x1a5700,0x1a5801,
    0x1a5f00,0x1a6001,0x1a6100,0x1a6201,0x1a6300,0x1a6501,0x1a6d00,0x1a7301,0x1a7d00,0x1a7f01,0x1a8000,0x1ab001,0x1acf00,0x1b0001,0x1b0400,0x1b3401,
    0x1b3500,0x1b3601,0x1b3b00,0x1b3c01,0x1b3d00,0x1b4201,0x1b4300,0x1b6b01,0x1b7400,0x1b8001,0x1b8200,0x1ba201,0x1ba600,0x1ba801,0x1baa00,0x1bab01,
    0x1bae00,0x1be601,0x1be700,0x1be801,0x1bea00,0x1bed01,0x1bee00,0x1bef01,0x1bf200,0x1c2c01,0x1c3400,0x1c3601,0x1c3800,0x1cd001,0x1cd300,0x1cd401,
    0x1ce100,0x1ce201,0x1ce900,0x1ced01,0x1cee00,0x1cf401,0x1cf500,0x1cf801,0x1cfa00,0x1dc001,0x1e0000,0x20d001,0x20f100,0x2cef01,0x2cf200,0x2d7f01,
    0x2d8000,0x2de001,0x2e0000,0x302a01,0x302e00,0x309901,0x309b00,0xa66f01,0xa67300,0xa67401,0xa67e00,0xa69e01,0xa6a000,0xa6f001,0xa6f200,0xa80201,
    0xa80300,0xa80601,0xa80700,0xa80b01,0xa80c00,0xa82501,0xa82700,0xa82c01,0xa82d00,0xa8c401,0xa8c600,0xa8e001,0xa8f200,0xa8ff01,0xa90000,0xa92601,
    0xa92e00,0xa94701,0xa95200,0xa98001,0xa98300,0xa9b301,0xa9b400,0xa9b601,0xa9ba00,0xa9bc01,0xa9be00,0xa9e501,0xa9e600,0xaa2901,0xaa2f00,0xaa3101,
    0xaa3300,0xaa3501,0xaa3700,0xaa4301,0xaa4400,0xaa4c01,0xaa4d00,0xaa7c01,0xaa7d00,0xaab001,0xaab100,0xaab201,0xaab500,0xaab701,0xaab900,0xaabe01,
    0xaac000,0xaac101,0xaac200,0xaaec01,0xaaee00,0xaaf601,0xaaf700,0xabe501,0xabe600,0xabe801,0xabe900,0xabed01,0xabee00,0xfb1e01,0xfb1f00,0xfe0001,
    0xfe1000,0xfe2001,0xfe3000,0x101fd01,0x101fe00,0x102e001,0x102e100,0x1037601,0x1037b00,0x10a0101,0x10a0400,0x10a0501,0x10a0700,0x10a0c01,0x10a1000,0x10a3801,
    0x10a3b00,0x10a3f01,0x10a4000,0x10ae501,0x10ae700,0x10d2401,0x10d2800,0x10eab01,0x10ead00,0x10f4601,0x10f5100,0x10f8201,0x10f8600,0x1100101,0x1100200,0x1103801,
    0x1104700,0x1107001,0x1107100,0x1107301,0x1107500,0x1107f01,0x1108200,0x110b301,0x110b700,0x110b901,0x110bb00,0x110c201,0x110c300,0x1110001,0x1110300,0x1112701,
    0x1112c00,0x1112d01,0x1113500,0x1117301,0x1117400,0x1118001,0x1118200,0x111b601,0x111bf00,0x111c901,0x111cd00,0x111cf01,0x111d000,0x1122f01,0x1123200,0x1123401,
    0x1123500,0x1123601,0x1123800,0x1123e01,0x1123f00,0x112df01,0x112e000,0x112e301,0x112eb00,0x1130001,0x1130200,0x1133b01,0x1133d00,0x1134001,0x1134100,0x1136601,
    0x1136d00,0x1137001,0x1137500,0x1143801,0x1144000,0x1144201,0x1144500,0x1144601,0x1144700,0x1145e01,0x1145f00,0x114b301,0x114b900,0x114ba01,0x114bb00,0x114bf01,
    0x114c100,0x114c201,0x114c400,0x115b201,0x115b600,0x115bc01,0x115be00,0x115bf01,0x115c100,0x115dc01,0x115de00,0x1163301,0x1163b00,0x1163d01,0x1163e00,0x1163f01,
    0x1164100,0x116ab01,0x116ac00,0x116ad01,0x116ae00,0x116b001,0x116b600,0x116b701,0x116b800,0x1171d01,0x1172000,0x1172201,0x1172600,0x1172701,0x1172c00,0x1182f01,
    0x1183800,0x1183901,0x1183b00,0x1193b01,0x1193d00,0x1193e01,0x1193f00,0x1194301,0x1194400,0x119d401,0x119d800,0x119da01,0x119dc00,0x119e001,0x119e100,0x11a0101,
    0x11a0b00,0x11a3301,0x11a3900,0x11a3b01,0x11a3f00,0x11a4701,0x11a4800,0x11a5101,0x11a5700,0x11a5901,0x11a5c00,0x11a8a01,0x11a9700,0x11a9801,0x11a9a00,0x11c3001,
    0x11c3700,0x11c3801,0x11c3e00,0x11c3f01,0x11c4000,0x11c9201,0x11ca800,0x11caa01,0x11cb100,0x11cb201,0x11cb400,0x11cb501,0x11cb700,0x11d3101,0x11d3700,0x11d3a01,
    0x11d3b00,0x11d3c01,0x11d3e00,0x11d3f01,0x11d4600,0x11d4701,0x11d4800,0x11d9001,0x11d9200,0x11d9501,0x11d9600,0x11d9701,0x11d9800,0x11ef301,0x11ef500,0x16af001,
    0x16af500,0x16b3001,0x16b3700,0x16f4f01,0x16f5000,0x16f8f01,0x16f9300,0x16fe401,0x16fe500,0x1bc9d01,0x1bc9f00,0x1cf0001,0x1cf2e00,0x1cf3001,0x1cf4700,0x1d16701,
    0x1d16a00,0x1d17b01,0x1d18300,0x1d18501,0x1d18c00,0x1d1aa01,0x1d1ae00,0x1d24201,0x1d24500,0x1da0001,0x1da3700,0x1da3b01,0x1da6d00,0x1da7501,0x1da7600,0x1da8401,
    0x1da8500,0x1da9b01,0x1daa000,0x1daa101,0x1dab000,0x1e00001,0x1e00700,0x1e00801,0x1e01900,0x1e01b01,0x1e02200,0x1e02301,0x1e02500,0x1e02601,0x1e02b00,0x1e13001,
    0x1e13700,0x1e2ae01,0x1e2af00,0x1e2ec01,0x1e2f000,0x1e8d001,0x1e8d700,0x1e94401,0x1e94b00,0xe010001,0xe01f000,0x11000000,
};
inline constexpr std::uint32_t gcb[1827] = {
    0x3,0xa02,0xb03,0xd01,0xe03,0x2000,0x7f03,0xa000,0xa90e,0xaa00,0xad03,0xae0e,0xaf00,0x30004,0x37000,0x48304,
    0x48a00,0x59104,0x5be00,0x5bf04,0x5c000,0x5c104,0x5c300,0x5c404,0x5c600,0x5c704,0x5c800,0x60007,0x60600,0x61004,0x61b00,0x61c03,
    0x61d00,0x64b04,0x66000,0x67004,0x67100,0x6d604,0x6dd07,0x6de00,0x6df04,0x6e500,0x6e704,0x6e900,0x6ea04,0x6ee00,0x70f07,0x71000,
    0x71104,0x71200,0x73004,0x74b00,0x7a604,0x7b100,0x7eb04,0x7f400,0x7fd04,0x7fe00,0x81604,0x81a00,0x81b04,0x82400,0x82504,0x82800,
    0x82904,0x82e00,0x85904,0x85c00,0x89007,0x89200,0x89804,0x8a000,0x8ca04,0x8e207,0x8e304,0x90308,0x90400,0x93a04,0x93b08,0x93c04,
    0x93d00,0x93e08,0x94104,0x94908,0x94d04,0x94e08,0x95000,0x95104,0x95800,0x96204,0x96400,0x98104,0x98208,0x98400,0x9bc04,0x9bd00,
    0x9be04,0x9bf08,0x9c104,0x9c500,0x9c708,0x9c900,0x9cb08,0x9cd04,0x9ce00,0x9d704,0x9d800,0x9e204,0x9e400,0x9fe04,0x9ff00,0xa0104,
    0xa0308,0xa0400,0xa3c04,0xa3d00,0xa3e08,0xa4104,0xa4300,0xa4704,0xa4900,0xa4b04,0xa4e00,0xa5104,0xa5200,0xa7004,0xa7200,0xa7504,
    0xa7600,0xa8104,0xa8308,0xa8400,0xabc04,0xabd00,0xabe08,0xac104,0xac600,0xac704,0xac908,0xaca00,0xacb08,0xacd04,0xace00,0xae204,
    0xae400,0xafa04,0xb0000,0xb0104,0xb0208,0xb0400,0xb3c04,0xb3d00,0xb3e04,0xb4008,0xb4104,0xb4500,0xb4708,0xb4900,0xb4b08,0xb4d04,
    0xb4e00,0xb5504,0xb5800,0xb6204,0xb6400,0xb8204,0xb8300,0xbbe04,0xbbf08,0xbc004,0xbc108,0xbc300,0xbc608,0xbc900,0xbca08,0xbcd04,
    0xbce00,0xbd704,0xbd800,0xc0004,0xc0108,0xc0404,0xc0500,0xc3c04,0xc3d00,0xc3e04,0xc4108,0xc4500,0xc4604,0xc4900,0xc4a04,0xc4e00,
    0xc5504,0xc5700,0xc6204,0xc6400,0xc8104,0xc8208,0xc8400,0xcbc04,0xcbd00,0xcbe08,0xcbf04,0xcc008,0xcc204,0xcc308,0xcc500,0xcc604,
    0xcc708,0xcc900,0xcca08,0xccc04,0xcce00,0xcd504,0xcd700,0xce204,0xce400,0xd0004,0xd0208,0xd0400,0xd3b04,0xd3d00,0xd3e04,0xd3f08,
    0xd4104,0xd4500,0xd4608,0xd4900,0xd4a08,0xd4d04,0xd4e07,0xd4f00,0xd5704,0xd5800,0xd6204,0xd6400,0xd8104,0xd8208,0xd8400,0xdca04,
    0xdcb00,0xdcf04,0xdd008,0xdd204,0xdd500,0xdd604,0xdd700,0xdd808,0xddf04,0xde000,0xdf208,0xdf400,0xe3104,0xe3200,0xe3308,0xe3404,
    0xe3b00,0xe4704,0xe4f00,0xeb104,0xeb200,0xeb308,0xeb404,0xebd00,0xec804,0xece00,0xf1804,0xf1a00,0xf3504,0xf3600,0xf3704,0xf3800,
    0xf3904,0xf3a00,0xf3e08,0xf4000,0xf7104,0xf7f08,0xf8004,0xf8500,0xf8604,0xf8800,0xf8d04,0xf9800,0xf9904,0xfbd00,0xfc604,0xfc700,
    0x102d04,0x103108,0x103204,0x103800,0x103904,0x103b08,0x103d04,0x103f00,0x105608,0x105804,0x105a00,0x105e04,0x106100,0x107104,0x107500,0x108204,
    0x108300,0x108408,0x108504,0x108700,0x108d04,0x108e00,0x109d04,0x109e00,0x110009,0x11600a,0x11a80b,0x120000,0x135d04,0x136000,0x171204,0x171508,
    0x171600,0x173204,0x173408,0x173500,0x175204,0x175400,0x177204,0x177400,0x17b404,0x17b608,0x17b704,0x17be08,0x17c604,0x17c708,0x17c904,0x17d400,
    0x17dd04,0x17de00,0x180b04,0x180e03,0x180f04,0x181000,0x188504,0x188700,0x18a904,0x18aa00,0x192004,0x192308,0x192704,0x192908,0x192c00,0x193008,
    0x193204,0x193308,0x193904,0x193c00,0x1a1704,0x1a1908,0x1a1b04,0x1a1c00,0x1a5508,0x1a5604,0x1a5708,0x1a5804,0x1a5f00,0x1a6004,0x1a6100,0x1a6204,
    0x1a6300,0x1a6504,0x1a6d08,0x1a7304,0x1a7d00,0x1a7f04,0x1a8000,0x1ab004,0x1acf00,0x1b0004,0x1b0408,0x1b0500,0x1b3404,0x1b3b08,0x1b3c04,0x1b3d08,
    0x1b4204,0x1b4308,0x1b4500,0x1b6b04,0x1b7400,0x1b8004,0x1b8208,0x1b8300,0x1ba108,0x1ba204,0x1ba608,0x1ba804,0x1baa08,0x1bab04,0x1bae00,0x1be604,
    0x1be708,0x1be804,0x1bea08,0x1bed04,0x1bee08,0x1bef04,0x1bf208,0x1bf400,0x1c2408,0x1c2c04,0x1c3408,0x1c3604,0x1c3800,0x1cd004,0x1cd300,0x1cd404,
    0x1ce108,0x1ce204,0x1ce900,0x1ced04,0x1cee00,0x1cf404,0x1cf500,0x1cf708,0x1cf804,0x1cfa00,0x1dc004,0x1e0000,0x200b03,0x200c04,0x200d05,0x200e03,
    0x201000,0x202803,0x202f00,0x203c0e,0x203d00,0x20490e,0x204a00,0x206003,0x207000,0x20d004,0x20f100,0x21220e,0x212300,0x21390e,0x213a00,0x21940e,
    0x219a00,0x21a90e,0x21ab00,0x231a0e,0x231c00,0x23280e,0x232900,0x23880e,0x238900,0x23cf0e,0x23d000,0x23e90e,0x23f400,0x23f80e,0x23fb00,0x24c20e,
    0x24c300,0x25aa0e,0x25ac00,0x25b60e,0x25b700,0x25c00e,0x25c100,0x25fb0e,0x25ff00,0x26000e,0x260600,0x26070e,0x261300,0x26140e,0x268600,0x26900e,
    0x270600,0x27080e,0x271300,0x27140e,0x271500,0x27160e,0x271700,0x271d0e,0x271e00,0x27210e,0x272200,0x27280e,0x272900,0x27330e,0x273500,0x27440e,
    0x274500,0x27470e,0x274800,0x274c0e,0x274d00,0x274e0e,0x274f00,0x27530e,0x275600,0x27570e,0x275800,0x27630e,0x276800,0x27950e,0x279800,0x27a10e,
    0x27a200,0x27b00e,0x27b100,0x27bf0e,0x27c000,0x29340e,0x293600,0x2b050e,0x2b0800,0x2b1b0e,0x2b1d00,0x2b500e,0x2b5100,0x2b550e,0x2b5600,0x2cef04,
    0x2cf200,0x2d7f04,0x2d8000,0x2de004,0x2e0000,0x302a04,0x30300e,0x303100,0x303d0e,0x303e00,0x309904,0x309b00,0x32970e,0x329800,0x32990e,0x329a00,
    0xa66f04,0xa67300,0xa67404,0xa67e00,0xa69e04,0xa6a000,0xa6f004,0xa6f200,0xa80204,0xa80300,0xa80604,0xa80700,0xa80b04,0xa80c00,0xa82308,0xa82504,
    0xa82708,0xa82800,0xa82c04,0xa82d00,0xa88008,0xa88200,0xa8b408,0xa8c404,0xa8c600,0xa8e004,0xa8f200,0xa8ff04,0xa90000,0xa92604,0xa92e00,0xa94704,
    0xa95208,0xa95400,0xa96009,0xa97d00,0xa98004,0xa98308,0xa98400,0xa9b304,0xa9b408,0xa9b604,0xa9ba08,0xa9bc04,0xa9be08,0xa9c100,0xa9e504,0xa9e600,
    0xaa2904,0xaa2f08,0xaa3104,0xaa3308,0xaa3504,0xaa3700,0xaa4304,0xaa4400,0xaa4c04,0xaa4d08,0xaa4e00,0xaa7c04,0xaa7d00,0xaab004,0xaab100,0xaab204,
    0xaab500,0xaab704,0xaab900,0xaabe04,0xaac000,0xaac104,0xaac200,0xaaeb08,0xaaec04,0xaaee08,0xaaf000,0xaaf508,0xaaf604,0xaaf700,0xabe308,0xabe504,
    0xabe608,0xabe804,0xabe908,0xabeb00,0xabec08,0xabed04,0xabee00,0xac000c,0xac010d,0xac1c0c,0xac1d0d,0xac380c,0xac390d,0xac540c,0xac550d,0xac700c,
    0xac710d,0xac8c0c,0xac8d0d,0xaca80c,0xaca90d,0xacc40c,0xacc50d,0xace00c,0xace10d,0xacfc0c,0xacfd0d,0xad180c,0xad190d,0xad340c,0xad350d,0xad500c,
    0xad510d,0xad6c0c,0xad6d0d,0xad880c,0xad890d,0xada40c,0xada50d,0xadc00c,0xadc10d,0xaddc0c,0xaddd0d,0xadf80c,0xadf90d,0xae140c,0xae150d,0xae300c,
    0xae310d,0xae4c0c,0xae4d0d,0xae680c,0xae690d,0xae840c,0xae850d,0xaea00c,0xaea10d,0xaebc0c,0xaebd0d,0xaed80c,0xaed90d,0xaef40c,0xaef50d,0xaf100c,
    0xaf110d,0xaf2c0c,0xaf2d0d,0xaf480c,0xaf490d,0xaf640c,0xaf650d,0xaf800c,0xaf810d,0xaf9c0c,0xaf9d0d,0xafb80c,0xafb90d,0xafd40c,0xafd50d,0xaff00c,
    0xaff10d,0xb00c0c,0xb00d0d,0xb0280c,0xb0290d,0xb0440c,0xb0450d,0xb0600c,0xb0610d,0xb07c0c,0xb07d0d,0xb0980c,0xb0990d,0xb0b40c,0xb0b50d,0xb0d00c,
    0xb0d10d,0xb0ec0c,0xb0ed0d,0xb1080c,0xb1090d,0xb1240c,0xb1250d,0xb1400c,0xb1410d,0xb15c0c,0xb15d0d,0xb1780c,0xb1790d,0xb1940c,0xb1950d,0xb1b00c,
    0xb1b10d,0xb1cc0c,0xb1cd0d,0xb1e80c,0xb1e90d,0xb2040c,0xb2050d,0xb2200c,0xb2210d,0xb23c0c,0xb23d0d,0xb2580c,0xb2590d,0xb2740c,0xb2750d,0xb2900c,
    0xb2910d,0xb2ac0c,0xb2ad0d,0xb2c80c,0xb2c90d,0xb2e40c,0xb2e50d,0xb3000c,0xb3010d,0xb31c0c,0xb31d0d,0xb3380c,0xb3390d,0xb3540c,0xb3550d,0xb3700c,
    0xb3710d,0xb38c0c,0xb38d0d,0xb3a80c,0xb3a90d,0xb3c40c,0xb3c50d,0xb3e00c,0xb3e10d,0xb3fc0c,0xb3fd0d,0xb4180c,0xb4190d,0xb4340c,0xb4350d,0xb4500c,
    0xb4510d,0xb46c0c,0xb46d0d,0xb4880c,0xb4890d,0xb4a40c,0xb4a50d,0xb4c00c,0xb4c10d,0xb4dc0c,0xb4dd0d,0xb4f80c,0xb4f90d,0xb5140c,0xb5150d,0xb5300c,
    0xb5310d,0xb54c0c,0xb54d0d,0xb5680c,0xb5690d,0xb5840c,0xb5850d,0xb5a00c,0xb5a10d,0xb5bc0c,0xb5bd0d,0xb5d80c,0xb5d90d,0xb5f40c,0xb5f50d,0xb6100c,
    0xb6110d,0xb62c0c,0xb62d0d,0xb6480c,0xb6490d,0xb6640c,0xb6650d,0xb6800c,0xb6810d,0xb69c0c,0xb69d0d,0xb6b80c,0xb6b90d,0xb6d40c,0xb6d50d,0xb6f00c,
    0xb6f10d,0xb70c0c,0xb70d0d,0xb7280c,0xb7290d,0xb7440c,0xb7450d,0xb7600c,0xb7610d,0xb77c0c,0xb77d0d,0xb7980c,0xb7990d,0xb7b40c,0xb7b50d,0xb7d00c,
    0xb7d10d,0xb7ec0c,0xb7ed0d,0xb8080c,0xb8090d,0xb8240c,0xb8250d,0xb8400c,0xb8410d,0xb85c0c,0xb85d0d,0xb8780c,0xb8790d,0xb8940c,0xb8950d,0xb8b00c,
    0xb8b10d,0xb8cc0c,0xb8cd0d,0xb8e80c,0xb8e90d,0xb9040c,0xb9050d,0xb9200c,0xb9210d,0xb93c0c,0xb93d0d,0xb9580c,0xb9590d,0xb9740c,0xb9750d,0xb9900c,
    0xb9910d,0xb9ac0c,0xb9ad0d,0xb9c80c,0xb9c90d,0xb9e40c,0xb9e50d,0xba000c,0xba010d,0xba1c0c,0xba1d0d,0xba380c,0xba390d,0xba540c,0xba550d,0xba700c,
    0xba710d,0xba8c0c,0xba8d0d,0xbaa80c,0xbaa90d,0xbac40c,0xbac50d,0xbae00c,0xbae10d,0xbafc0c,0xbafd0d,0xbb180c,0xbb190d,0xbb340c,0xbb350d,0xbb500c,
    0xbb510d,0xbb6c0c,0xbb6d0d,0xbb880c,0xbb890d,0xbba40c,0xbba50d,0xbbc00c,0xbbc10d,0xbbdc0c,0xbbdd0d,0xbbf80c,0xbbf90d,0xbc140c,0xbc150d,0xbc300c,
    0xbc310d,0xbc4c0c,0xbc4d0d,0xbc680c,0xbc690d,0xbc840c,0xbc850d,0xbca00c,0xbca10d,0xbcbc0c,0xbcbd0d,0xbcd80c,0xbcd90d,0xbcf40c,0xbcf50d,0xbd100c,
    0xbd110d,0xbd2c0c,0xbd2d0d,0xbd480c,0xbd490d,0xbd640c,0xbd650d,0xbd800c,0xbd810d,0xbd9c0c,0xbd9d0d,0xbdb80c,0xbdb90d,0xbdd40c,0xbdd50d,0xbdf00c,
    0xbdf10d,0xbe0c0c,0xbe0d0d,0xbe280c,0xbe290d,0xbe440c,0xbe450d,0xbe600c,0xbe610d,0xbe7c0c,0xbe7d0d,0xbe980c,0xbe990d,0xbeb40c,0xbeb50d,0xbed00c,
    0xbed10d,0xbeec0c,0xbeed0d,0xbf080c,0xbf090d,0xbf240c,0xbf250d,0xbf400c,0xbf410d,0xbf5c0c,0xbf5d0d,0xbf780c,0xbf790d,0xbf940c,0xbf950d,0xbfb00c,
    0xbfb10d,0xbfcc0c,0xbfcd0d,0xbfe80c,0xbfe90d,0xc0040c,0xc0050d,0xc0200c,0xc0210d,0xc03c0c,0xc03d0d,0xc0580c,0xc0590d,0xc0740c,0xc0750d,0xc0900c,
    0xc0910d,0xc0ac0c,0xc0ad0d,0xc0c80c,0xc0c90d,0xc0e40c,0xc0e50d,0xc1000c,0xc1010d,0xc11c0c,0xc11d0d,0xc1380c,0xc1390d,0xc1540c,0xc1550d,0xc1700c,
    0xc1710d,0xc18c0c,0xc18d0d,0xc1a80c,0xc1a90d,0xc1c40c,0xc1c50d,0xc1e00c,0xc1e10d,0xc1fc0c,0xc1fd0d,0xc2180c,0xc2190d,0xc2340c,0xc2350d,0xc2500c,
    0xc2510d,0xc26c0c,0xc26d0d,0xc2880c,0xc2890d,0xc2a40c,0xc2a50d,0xc2c00c,0xc2c10d,0xc2dc0c,0xc2dd0d,0xc2f80c,0xc2f90d,0xc3140c,0xc3150d,0xc3300c,
    0xc3310d,0xc34c0c,0xc34d0d,0xc3680c,0xc3690d,0xc3840c,0xc3850d,0xc3a00c,0xc3a10d,0xc3bc0c,0xc3bd0d,0xc3d80c,0xc3d90d,0xc3f40c,0xc3f50d,0xc4100c,
    0xc4110d,0xc42c0c,0xc42d0d,0xc4480c,0xc4490d,0xc4640c,0xc4650d,0xc4800c,0xc4810d,0xc49c0c,0xc49d0d,0xc4b80c,0xc4b90d,0xc4d40c,0xc4d50d,0xc4f00c,
    0xc4f10d,0xc50c0c,0xc50d0d,0xc5280c,0xc5290d,0xc5440c,0xc5450d,0xc5600c,0xc5610d,0xc57c0c,0xc57d0d,0xc5980c,0xc5990d,0xc5b40c,0xc5b50d,0xc5d00c,
    0xc5d10d,0xc5ec0c,0xc5ed0d,0xc6080c,0xc6090d,0xc6240c,0xc6250d,0xc6400c,0xc6410d,0xc65c0c,0xc65d0d,0xc6780c,0xc6790d,0xc6940c,0xc6950d,0xc6b00c,
    0xc6b10d,0xc6cc0c,0xc6cd0d,0xc6e80c,0xc6e90d,0xc7040c,0xc7050d,0xc7200c,0xc7210d,0xc73c0c,0xc73d0d,0xc7580c,0xc7590d,0xc7740c,0xc7750d,0xc7900c,
    0xc7910d,0xc7ac0c,0xc7ad0d,0xc7c80c,0xc7c90d,0xc7e40c,0xc7e50d,0xc8000c,0xc8010d,0xc81c0c,0xc81d0d,0xc8380c,0xc8390d,0xc8540c,0xc8550d,0xc8700c,
    0xc8710d,0xc88c0c,0xc88d0d,0xc8a80c,0xc8a90d,0xc8c40c,0xc8c50d,0xc8e00c,0xc8e10d,0xc8fc0c,0xc8fd0d,0xc9180c,0xc9190d,0xc9340c,0xc9350d,0xc9500c,
    0xc9510d,0xc96c0c,0xc96d0d,0xc9880c,0xc9890d,0xc9a40c,0xc9a50d,0xc9c00c,0xc9c10d,0xc9dc0c,0xc9dd0d,0xc9f80c,0xc9f90d,0xca140c,0xca150d,0xca300c,
    0xca310d,0xca4c0c,0xca4d0d,0xca680c,0xca690d,0xca840c,0xca850d,0xcaa00c,0xcaa10d,0xcabc0c,0xcabd0d,0xcad80c,0xcad90d,0xcaf40c,0xcaf50d,0xcb100c,
    0xcb110d,0xcb2c0c,0xcb2d0d,0xcb480c,0xcb490d,0xcb640c,0xcb650d,0xcb800c,0xcb810d,0xcb9c0c,0xcb9d0d,0xcbb80c,0xcbb90d,0xcbd40c,0xcbd50d,0xcbf00c,
    0xcbf10d,0xcc0c0c,0xcc0d0d,0xcc280c,0xcc290d,0xcc440c,0xcc450d,0xcc600c,0xcc610d,0xcc7c0c,0xcc7d0d,0xcc980c,0xcc990d,0xccb40c,0xccb50d,0xccd00c,
    0xccd10d,0xccec0c,0xcced0d,0xcd080c,0xcd090d,0xcd240c,0xcd250d,0xcd400c,0xcd410d,0xcd5c0c,0xcd5d0d,0xcd780c,0xcd790d,0xcd940c,0xcd950d,0xcdb00c,
    0xcdb10d,0xcdcc0c,0xcdcd0d,0xcde80c,0xcde90d,0xce040c,0xce050d,0xce200c,0xce210d,0xce3c0c,0xce3d0d,0xce580c,0xce590d,0xce740c,0xce750d,0xce900c,
    0xce910d,0xceac0c,0xcead0d,0xcec80c,0xcec90d,0xcee40c,0xcee50d,0xcf000c,0xcf010d,0xcf1c0c,0xcf1d0d,0xcf380c,0xcf390d,0xcf540c,0xcf550d,0xcf700c,
    0xcf710d,0xcf8c0c,0xcf8d0d,0xcfa80c,0xcfa90d,0xcfc40c,0xcfc50d,0xcfe00c,0xcfe10d,0xcffc0c,0xcffd0d,0xd0180c,0xd0190d,0xd0340c,0xd0350d,0xd0500c,
    0xd0510d,0xd06c0c,0xd06d0d,0xd0880c,0xd0890d,0xd0a40c,0xd0a50d,0xd0c00c,0xd0c10d,0xd0dc0c,0xd0dd0d,0xd0f80c,0xd0f90d,0xd1140c,0xd1150d,0xd1300c,
    0xd1310d,0xd14c0c,0xd14d0d,0xd1680c,0xd1690d,0xd1840c,0xd1850d,0xd1a00c,0xd1a10d,0xd1bc0c,0xd1bd0d,0xd1d80c,0xd1d90d,0xd1f40c,0xd1f50d,0xd2100c,
    0xd2110d,0xd22c0c,0xd22d0d,0xd2480c,0xd2490d,0xd2640c,0xd2650d,0xd2800c,0xd2810d,0xd29c0c,0xd29d0d,0xd2b80c,0xd2b90d,0xd2d40c,0xd2d50d,0xd2f00c,
    0xd2f10d,0xd30c0c,0xd30d0d,0xd3280c,0xd3290d,0xd3440c,0xd3450d,0xd3600c,0xd3610d,0xd37c0c,0xd37d0d,0xd3980c,0xd3990d,0xd3b40c,0xd3b50d,0xd3d00c,
    0xd3d10d,0xd3ec0c,0xd3ed0d,0xd4080c,0xd4090d,0xd4240c,0xd4250d,0xd4400c,0xd4410d,0xd45c0c,0xd45d0d,0xd4780c,0xd4790d,0xd4940c,0xd4950d,0xd4b00c,
    0xd4b10d,0xd4cc0c,0xd4cd0d,0xd4e80c,0xd4e90d,0xd5040c,0xd5050d,0xd5200c,0xd5210d,0xd53c0c,0xd53d0d,0xd5580c,0xd5590d,0xd5740c,0xd5750d,0xd5900c,
    0xd5910d,0xd5ac0c,0xd5ad0d,0xd5c80c,0xd5c90d,0xd5e40c,0xd5e50d,0xd6000c,0xd6010d,0xd61c0c,0xd61d0d,0xd6380c,0xd6390d,0xd6540c,0xd6550d,0xd6700c,
    0xd6710d,0xd68c0c,0xd68d0d,0xd6a80c,0xd6a90d,0xd6c40c,0xd6c50d,0xd6e00c,0xd6e10d,0xd6fc0c,0xd6fd0d,0xd7180c,0xd7190d,0xd7340c,0xd7350d,0xd7500c,
    0xd7510d,0xd76c0c,0xd76d0d,0xd7880c,0xd7890d,0xd7a400,0xd7b00a,0xd7c700,0xd7cb0b,0xd7fc00,0xfb1e04,0xfb1f00,0xfe0004,0xfe1000,0xfe2004,0xfe3000,
    0xfeff03,0xff0000,0xff9e04,0xffa000,0xfff003,0xfffc00,0x101fd04,0x101fe00,0x102e004,0x102e100,0x1037604,0x1037b00,0x10a0104,0x10a0400,0x10a0504,0x10a0700,
    0x10a0c04,0x10a1000,0x10a3804,0x10a3b00,0x10a3f04,0x10a4000,0x10ae504,0x10ae700,0x10d2404,0x10d2800,0x10eab04,0x10ead00,0x10f4604,0x10f5100,0x10f8204,0x10f8600,
    0x1100008,0x1100104,0x1100208,0x1100300,0x1103804,0x1104700,0x1107004,0x1107100,0x1107304,0x1107500,0x1107f04,0x1108208,0x1108300,0x110b008,0x110b304,0x110b708,
    0x110b904,0x110bb00,0x110bd07,0x110be00,0x110c204,0x110c300,0x110cd07,0x110ce00,0x1110004,0x1110300,0x1112704,0x1112c08,0x1112d04,0x1113500,0x1114508,0x1114700,
    0x1117304,0x1117400,0x1118004,0x1118208,0x1118300,0x111b308,0x111b604,0x111bf08,0x111c100,0x111c207,0x111c400,0x111c904,0x111cd00,0x111ce08,0x111cf04,0x111d000,
    0x1122c08,0x1122f04,0x1123208,0x1123404,0x1123508,0x1123604,0x1123800,0x1123e04,0x1123f00,0x112df04,0x112e008,0x112e304,0x112eb00,0x1130004,0x1130208,0x1130400,
    0x1133b04,0x1133d00,0x1133e04,0x1133f08,0x1134004,0x1134108,0x1134500,0x1134708,0x1134900,0x1134b08,0x1134e00,0x1135704,0x1135800,0x1136208,0x1136400,0x1136604,
    0x1136d00,0x1137004,0x1137500,0x1143508,0x1143804,0x1144008,0x1144204,0x1144508,0x1144604,0x1144700,0x1145e04,0x1145f00,0x114b004,0x114b108,0x114b304,0x114b908,
    0x114ba04,0x114bb08,0x114bd04,0x114be08,0x114bf04,0x114c108,0x114c204,0x114c400,0x115af04,0x115b008,0x115b204,0x115b600,0x115b808,0x115bc04,0x115be08,0x115bf04,
    0x115c100,0x115dc04,0x115de00,0x1163008,0x1163304,0x1163b08,0x1163d04,0x1163e08,0x1163f04,0x1164100,0x116ab04,0x116ac08,0x116ad04,0x116ae08,0x116b004,0x116b608,
    0x116b704,0x116b800,0x1171d04,0x1172000,0x1172204,0x1172608,0x1172704,0x1172c00,0x1182c08,0x1182f04,0x1183808,0x1183904,0x1183b00,0x1193004,0x1193108,0x1193600,
    0x1193708,0x1193900,0x1193b04,0x1193d08,0x1193e04,0x1193f07,0x1194008,0x1194107,0x1194208,0x1194304,0x1194400,0x119d108,0x119d404,0x119d800,0x119da04,0x119dc08,
    0x119e004,0x119e100,0x119e408,0x119e500,0x11a0104,0x11a0b00,0x11a3304,0x11a3908,0x11a3a07,0x11a3b04,0x11a3f00,0x11a4704,0x11a4800,0x11a5104,0x11a5708,0x11a5904,
    0x11a5c00,0x11a8407,0x11a8a04,0x11a9708,0x11a9804,0x11a9a00,0x11c2f08,0x11c3004,0x11c3700,0x11c3804,0x11c3e08,0x11c3f04,0x11c4000,0x11c9204,0x11ca800,0x11ca908,
    0x11caa04,0x11cb108,0x11cb204,0x11cb408,0x11cb504,0x11cb700,0x11d3104,0x11d3700,0x11d3a04,0x11d3b00,0x11d3c04,0x11d3e00,0x11d3f04,0x11d4607,0x11d4704,0x11d4800,
    0x11d8a08,0x11d8f00,0x11d9004,0x11d9200,0x11d9308,0x11d9504,0x11d9608,0x11d9704,0x11d9800,0x11ef304,0x11ef508,0x11ef700,0x1343003,0x1343900,0x16af004,0x16af500,
    0x16b3004,0x16b3700,0x16f4f04,0x16f5000,0x16f5108,0x16f8800,0x16f8f04,0x16f9300,0x16fe404,0x16fe500,0x16ff008,0x16ff200,0x1bc9d04,0x1bc9f00,0x1bca003,0x1bca400,
    0x1cf0004,0x1cf2e00,0x1cf3004,0x1cf4700,0x1d16504,0x1d16608,0x1d16704,0x1d16a00,0x1d16d08,0x1d16e04,0x1d17303,0x1d17b04,0x1d18300,0x1d18504,0x1d18c00,0x1d1aa04,
    0x1d1ae00,0x1d24204,0x1d24500,0x1da0004,0x1da3700,0x1da3b04,0x1da6d00,0x1da7504,0x1da7600,0x1da8404,0x1da8500,0x1da9b04,0x1daa000,0x1daa104,0x1dab000,0x1e00004,
    0x1e00700,0x1e00804,0x1e01900,0x1e01b04,0x1e02200,0x1e02304,0x1e02500,0x1e02604,0x1e02b00,0x1e13004,0x1e13700,0x1e2ae04,0x1e2af00,0x1e2ec04,0x1e2f000,0x1e8d004,
    0x1e8d700,0x1e94404,0x1e94b00,0x1f0000e,0x1f10000,0x1f10d0e,0x1f11000,0x1f12f0e,0x1f13000,0x1f16c0e,0x1f17200,0x1f17e0e,0x1f18000,0x1f18e0e,0x1f18f00,0x1f1910e,
    0x1f19b00,0x1f1ad0e,0x1f1e606,0x1f20000,0x1f2010e,0x1f21000,0x1f21a0e,0x1f21b00,0x1f22f0e,0x1f23000,0x1f2320e,0x1f23b00,0x1f23c0e,0x1f24000,0x1f2490e,0x1f3fb04,
    0x1f4000e,0x1f53e00,0x1f5460e,0x1f65000,0x1f6800e,0x1f70000,0x1f7740e,0x1f78000,0x1f7d50e,0x1f80000,0x1f80c0e,0x1f81000,0x1f8480e,0x1f85000,0x1f85a0e,0x1f86000,
    0x1f8880e,0x1f89000,0x1f8ae0e,0x1f90000,0x1f90c0e,0x1f93b00,0x1f93c0e,0x1f94600,0x1f9470e,0x1fb0000,0x1fc000e,0x1fffe00,0xe000003,0xe002004,0xe008003,0xe010004,
    0xe01f003,0xe100000,0x11000000,
};
inline constexpr std::uint32_t lb[3312] = {
    0x8,0x902,0xa19,0xb05,0xd0a,0xe08,0x2022,0x210d,0x2220,0x2301,0x241f,0x251e,0x2601,0x2720,0x281d,0x2909,
    0x2a01,0x2b1f,0x2c15,0x2d11,0x2e15,0x2f23,0x301c,0x3a15,0x3c01,0x3f0d,0x4001,0x5b1d,0x5c1f,0x5d09,0x5e01,0x7b1d,
    0x7c02,0x7d07,0x7e01,0x7f08,0x851a,0x8608,0xa00e,0xa11d,0xa21e,0xa31f,0xa601,0xab20,0xac01,0xad02,0xae01,0xb01e,
    0xb11f,0xb201,0xb403,0xb501,0xbb20,0xbc01,0xbf1d,0xc001,0x2c803,0x2c901,0x2cc03,0x2cd01,0x2df03,0x2e001,0x30008,0x34f0e,
    0x35008,0x35c0e,0x36308,0x37001,0x37800,0x37a01,0x37e15,0x37f01,0x38000,0x38401,0x38b00,0x38c01,0x38d00,0x38e01,0x3a200,0x3a301,
    0x48308,0x48a01,0x53000,0x53101,0x55700,0x55901,0x58915,0x58a02,0x58b00,0x58d01,0x58f1f,0x59000,0x59108,0x5be02,0x5bf08,0x5c001,
    0x5c108,0x5c301,0x5c408,0x5c60d,0x5c708,0x5c800,0x5d013,0x5eb00,0x5ef13,0x5f301,0x5f500,0x60001,0x6091e,0x60c15,0x60e01,0x61008,
    0x61b0d,0x61c08,0x61d0d,0x62001,0x64b08,0x6601c,0x66a1e,0x66b1c,0x66d01,0x67008,0x67101,0x6d40d,0x6d501,0x6d608,0x6dd01,0x6df08,
    0x6e501,0x6e708,0x6e901,0x6ea08,0x6ee01,0x6f01c,0x6fa01,0x70e00,0x70f01,0x71108,0x71201,0x73008,0x74b00,0x74d01,0x7a608,0x7b101,
    0x7b200,0x7c01c,0x7ca01,0x7eb08,0x7f401,0x7f815,0x7f90d,0x7fa01,0x7fb00,0x7fd08,0x7fe1f,0x80001,0x81608,0x81a01,0x81b08,0x82401,
    0x82508,0x82801,0x82908,0x82e00,0x83001,0x83f00,0x84001,0x85908,0x85c00,0x85e01,0x85f00,0x86001,0x86b00,0x87001,0x88f00,0x89001,
    0x89200,0x89808,0x8a001,0x8ca08,0x8e201,0x8e308,0x90401,0x93a08,0x93d01,0x93e08,0x95001,0x95108,0x95801,0x96208,0x96402,0x9661c,
    0x97001,0x98108,0x98400,0x98501,0x98d00,0x98f01,0x99100,0x99301,0x9a900,0x9aa01,0x9b100,0x9b201,0x9b300,0x9b601,0x9ba00,0x9bc08,
    0x9bd01,0x9be08,0x9c500,0x9c708,0x9c900,0x9cb08,0x9ce01,0x9cf00,0x9d708,0x9d800,0x9dc01,0x9de00,0x9df01,0x9e208,0x9e400,0x9e61c,
    0x9f001,0x9f21e,0x9f401,0x9f91e,0x9fa01,0x9fb1f,0x9fc01,0x9fe08,0x9ff00,0xa0108,0xa0400,0xa0501,0xa0b00,0xa0f01,0xa1100,0xa1301,
    0xa2900,0xa2a01,0xa3100,0xa3201,0xa3400,0xa3501,0xa3700,0xa3801,0xa3a00,0xa3c08,0xa3d00,0xa3e08,0xa4300,0xa4708,0xa4900,0xa4b08,
    0xa4e00,0xa5108,0xa5200,0xa5901,0xa5d00,0xa5e01,0xa5f00,0xa661c,0xa7008,0xa7201,0xa7508,0xa7601,0xa7700,0xa8108,0xa8400,0xa8501,
    0xa8e00,0xa8f01,0xa9200,0xa9301,0xaa900,0xaaa01,0xab100,0xab201,0xab400,0xab501,0xaba00,0xabc08,0xabd01,0xabe08,0xac600,0xac708,
    0xaca00,0xacb08,0xace00,0xad001,0xad100,0xae001,0xae208,0xae400,0xae61c,0xaf001,0xaf11f,0xaf200,0xaf901,0xafa08,0xb0000,0xb0108,
    0xb0400,0xb0501,0xb0d00,0xb0f01,0xb1100,0xb1301,0xb2900,0xb2a01,0xb3100,0xb3201,0xb3400,0xb3501,0xb3a00,0xb3c08,0xb3d01,0xb3e08,
    0xb4500,0xb4708,0xb4900,0xb4b08,0xb4e00,0xb5508,0xb5800,0xb5c01,0xb5e00,0xb5f01,0xb6208,0xb6400,0xb661c,0xb7001,0xb7800,0xb8208,
    0xb8301,0xb8400,0xb8501,0xb8b00,0xb8e01,0xb9100,0xb9201,0xb9600,0xb9901,0xb9b00,0xb9c01,0xb9d00,0xb9e01,0xba000,0xba301,0xba500,
    0xba801,0xbab00,0xbae01,0xbba00,0xbbe08,0xbc300,0xbc608,0xbc900,0xbca08,0xbce00,0xbd001,0xbd100,0xbd708,0xbd800,0xbe61c,0xbf001,
    0xbf91f,0xbfa01,0xbfb00,0xc0008,0xc0501,0xc0d00,0xc0e01,0xc1100,0xc1201,0xc2900,0xc2a01,0xc3a00,0xc3c08,0xc3d01,0xc3e08,0xc4500,
    0xc4608,0xc4900,0xc4a08,0xc4e00,0xc5508,0xc5700,0xc5801,0xc5b00,0xc5d01,0xc5e00,0xc6001,0xc6208,0xc6400,0xc661c,0xc7000,0xc7703,
    0xc7801,0xc8108,0xc8403,0xc8501,0xc8d00,0xc8e01,0xc9100,0xc9201,0xca900,0xcaa01,0xcb400,0xcb501,0xcba00,0xcbc08,0xcbd01,0xcbe08,
    0xcc500,0xcc608,0xcc900,0xcca08,0xcce00,0xcd508,0xcd700,0xcdd01,0xcdf00,0xce001,0xce208,0xce400,0xce61c,0xcf000,0xcf101,0xcf300,
    0xd0008,0xd0401,0xd0d00,0xd0e01,0xd1100,0xd1201,0xd3b08,0xd3d01,0xd3e08,0xd4500,0xd4608,0xd4900,0xd4a08,0xd4e01,0xd5000,0xd5401,
    0xd5708,0xd5801,0xd6208,0xd6400,0xd661c,0xd7001,0xd791e,0xd7a01,0xd8000,0xd8108,0xd8400,0xd8501,0xd9700,0xd9a01,0xdb200,0xdb301,
    0xdbc00,0xdbd01,0xdbe00,0xdc001,0xdc700,0xdca08,0xdcb00,0xdcf08,0xdd500,0xdd608,0xdd700,0xdd808,0xde000,0xde61c,0xdf000,0xdf208,
    0xdf401,0xdf500,0xe0101,0xe3108,0xe3201,0xe3408,0xe3b00,0xe3f1f,0xe4001,0xe4708,0xe4f01,0xe501c,0xe5a02,0xe5c00,0xe8101,0xe8300,
    0xe8401,0xe8500,0xe8601,0xe8b00,0xe8c01,0xea400,0xea501,0xea600,0xea701,0xeb108,0xeb201,0xeb408,0xebd01,0xebe00,0xec001,0xec500,
    0xec601,0xec700,0xec808,0xece00,0xed01c,0xeda00,0xedc01,0xee000,0xf0001,0xf0103,0xf0501,0xf0603,0xf080e,0xf0903,0xf0b02,0xf0c0e,
    0xf0d0d,0xf120e,0xf1301,0xf140d,0xf1501,0xf1808,0xf1a01,0xf201c,0xf2a01,0xf3402,0xf3508,0xf3601,0xf3708,0xf3801,0xf3908,0xf3a1d,
    0xf3b07,0xf3c1d,0xf3d07,0xf3e08,0xf4001,0xf4800,0xf4901,0xf6d00,0xf7108,0xf7f02,0xf8008,0xf8502,0xf8608,0xf8801,0xf8d08,0xf9800,
    0xf9908,0xfbd00,0xfbe02,0xfc001,0xfc608,0xfc701,0xfcd00,0xfce01,0xfd003,0xfd202,0xfd303,0xfd401,0xfd90e,0xfdb00,0x100001,0x102b08,
    0x103f01,0x10401c,0x104a02,0x104c01,0x105608,0x105a01,0x105e08,0x106101,0x106208,0x106501,0x106708,0x106e01,0x107108,0x107501,0x108208,0x108e01,
    0x108f08,0x10901c,0x109a08,0x109e01,0x10c600,0x10c701,0x10c800,0x10cd01,0x10ce00,0x10d001,0x110016,0x116018,0x11a817,0x120001,0x124900,0x124a01,
    0x124e00,0x125001,0x125700,0x125801,0x125900,0x125a01,0x125e00,0x126001,0x128900,0x128a01,0x128e00,0x129001,0x12b100,0x12b201,0x12b600,0x12b801,
    0x12bf00,0x12c001,0x12c100,0x12c201,0x12c600,0x12c801,0x12d700,0x12d801,0x131100,0x131201,0x131600,0x131801,0x135b00,0x135d08,0x136001,0x136102,
    0x136201,0x137d00,0x138001,0x139a00,0x13a001,0x13f600,0x13f801,0x13fe00,0x140002,0x140101,0x168002,0x168101,0x169b1d,0x169c07,0x169d00,0x16a001,
    0x16eb02,0x16ee01,0x16f900,0x170001,0x171208,0x171600,0x171f01,0x173208,0x173502,0x173700,0x174001,0x175208,0x175400,0x176001,0x176d00,0x176e01,
    0x177100,0x177208,0x177400,0x178001,0x17b408,0x17d402,0x17d61b,0x17d701,0x17d802,0x17d901,0x17da02,0x17db1f,0x17dc01,0x17dd08,0x17de00,0x17e01c,
    0x17ea00,0x17f001,0x17fa00,0x180001,0x18020d,0x180402,0x180603,0x180701,0x18080d,0x180a01,0x180b08,0x180e0e,0x180f08,0x18101c,0x181a00,0x182001,
    0x187900,0x188001,0x188508,0x188701,0x18a908,0x18aa01,0x18ab00,0x18b001,0x18f600,0x190001,0x191f00,0x192008,0x192c00,0x193008,0x193c00,0x194001,
    0x194100,0x19440d,0x19461c,0x195001,0x196e00,0x197001,0x197500,0x198001,0x19ac00,0x19b001,0x19ca00,0x19d01c,0x19da01,0x19db00,0x19de01,0x1a1708,
    0x1a1c00,0x1a1e01,0x1a5508,0x1a5f00,0x1a6008,0x1a7d00,0x1a7f08,0x1a801c,0x1a8a00,0x1a901c,0x1a9a00,0x1aa001,0x1aae00,0x1ab008,0x1acf00,0x1b0008,
    0x1b0501,0x1b3408,0x1b4501,0x1b4d00,0x1b501c,0x1b5a02,0x1b5c01,0x1b5d02,0x1b6101,0x1b6b08,0x1b7401,0x1b7d02,0x1b7f00,0x1b8008,0x1b8301,0x1ba108,
    0x1bae01,0x1bb01c,0x1bba01,0x1be608,0x1bf400,0x1bfc01,0x1c2408,0x1c3800,0x1c3b02,0x1c401c,0x1c4a00,0x1c4d01,0x1c501c,0x1c5a01,0x1c7e02,0x1c8001,
    0x1c8900,0x1c9001,0x1cbb00,0x1cbd01,0x1cc800,0x1cd008,0x1cd301,0x1cd408,0x1ce901,0x1ced08,0x1cee01,0x1cf408,0x1cf501,0x1cf708,0x1cfa01,0x1cfb00,
    0x1d0001,0x1dc008,0x1e0001,0x1f1600,0x1f1801,0x1f1e00,0x1f2001,0x1f4600,0x1f4801,0x1f4e00,0x1f5001,0x1f5800,0x1f5901,0x1f5a00,0x1f5b01,0x1f5c00,
    0x1f5d01,0x1f5e00,0x1f5f01,0x1f7e00,0x1f8001,0x1fb500,0x1fb601,0x1fc500,0x1fc601,0x1fd400,0x1fd601,0x1fdc00,0x1fdd01,0x1ff000,0x1ff201,0x1ff500,
    0x1ff601,0x1ffd03,0x1ffe01,0x1fff00,0x200002,0x20070e,0x200802,0x200b25,0x200c08,0x200d26,0x200e08,0x201002,0x20110e,0x201202,0x201404,0x201501,
    0x201820,0x201a1d,0x201b20,0x201e1d,0x201f20,0x202001,0x202414,0x202702,0x202805,0x202a08,0x202f0e,0x20301e,0x203801,0x203920,0x203b01,0x203c1b,
    0x203e01,0x204415,0x20451d,0x204607,0x20471b,0x204a01,0x205602,0x205701,0x205802,0x205c01,0x205d02,0x206024,0x206101,0x206500,0x206608,0x207001,
    0x207200,0x207401,0x207d1d,0x207e07,0x207f01,0x208d1d,0x208e07,0x208f00,0x209001,0x209d00,0x20a01f,0x20a71e,0x20a81f,0x20b61e,0x20b71f,0x20bb1e,
    0x20bc1f,0x20be1e,0x20bf1f,0x20c01e,0x20c11f,0x20d008,0x20f100,0x210001,0x21031e,0x210401,0x21091e,0x210a01,0x21161f,0x211701,0x218c00,0x219001,
    0x22121f,0x221401,0x22ef14,0x22f001,0x23081d,0x230907,0x230a1d,0x230b07,0x230c01,0x231a12,0x231c01,0x23291d,0x232a07,0x232b01,0x23f012,0x23f401,
    0x242700,0x244001,0x244b00,0x246001,0x260012,0x260401,0x261412,0x261601,0x261812,0x261901,0x261a12,0x261d0b,0x261e12,0x262001,0x263912,0x263c01,
    0x266812,0x266901,0x267f12,0x268001,0x26bd12,0x26c901,0x26cd12,0x26ce01,0x26cf12,0x26d201,0x26d312,0x26d501,0x26d812,0x26da01,0x26dc12,0x26dd01,
    0x26df12,0x26e201,0x26ea12,0x26eb01,0x26f112,0x26f601,0x26f712,0x26f90b,0x26fa12,0x26fb01,0x26fd12,0x270501,0x270812,0x270a0b,0x270e01,0x275b20,
    0x276101,0x27620d,0x276412,0x276501,0x27681d,0x276907,0x276a1d,0x276b07,0x276c1d,0x276d07,0x276e1d,0x276f07,0x27701d,0x277107,0x27721d,0x277307,
    0x27741d,0x277507,0x277601,0x27c51d,0x27c607,0x27c701,0x27e61d,0x27e707,0x27e81d,0x27e907,0x27ea1d,0x27eb07,0x27ec1d,0x27ed07,0x27ee1d,0x27ef07,
    0x27f001,0x29831d,0x298407,0x29851d,0x298607,0x29871d,0x298807,0x29891d,0x298a07,0x298b1d,0x298c07,0x298d1d,0x298e07,0x298f1d,0x299007,0x29911d,
    0x299207,0x29931d,0x299407,0x29951d,0x299607,0x29971d,0x299807,0x299901,0x29d81d,0x29d907,0x29da1d,0x29db07,0x29dc01,0x29fc1d,0x29fd07,0x29fe01,
    0x2b7400,0x2b7601,0x2b9600,0x2b9701,0x2cef08,0x2cf201,0x2cf400,0x2cf90d,0x2cfa02,0x2cfd01,0x2cfe0d,0x2cff02,0x2d0001,0x2d2600,0x2d2701,0x2d2800,
    0x2d2d01,0x2d2e00,0x2d3001,0x2d6800,0x2d6f01,0x2d7002,0x2d7100,0x2d7f08,0x2d8001,0x2d9700,0x2da001,0x2da700,0x2da801,0x2daf00,0x2db001,0x2db700,
    0x2db801,0x2dbf00,0x2dc001,0x2dc700,0x2dc801,0x2dcf00,0x2dd001,0x2dd700,0x2dd801,0x2ddf00,0x2de008,0x2e0020,0x2e0e02,0x2e1601,0x2e1702,0x2e181d,
    0x2e1902,0x2e1a01,0x2e1c20,0x2e1e01,0x2e2020,0x2e221d,0x2e2307,0x2e241d,0x2e2507,0x2e261d,0x2e2707,0x2e281d,0x2e2907,0x2e2a02,0x2e2e0d,0x2e2f01,
    0x2e3002,0x2e3201,0x2e3302,0x2e3501,0x2e3a04,0x2e3c02,0x2e3f01,0x2e4002,0x2e421d,0x2e4302,0x2e4b01,0x2e4c02,0x2e4d01,0x2e4e02,0x2e5001,0x2e530d,
    0x2e551d,0x2e5607,0x2e571d,0x2e5807,0x2e591d,0x2e5a07,0x2e5b1d,0x2e5c07,0x2e5d02,0x2e5e00,0x2e8012,0x2e9a00,0x2e9b12,0x2ef400,0x2f0012,0x2fd600,
    0x2ff012,0x2ffc00,0x300002,0x300107,0x300312,0x30051b,0x300612,0x30081d,0x300907,0x300a1d,0x300b07,0x300c1d,0x300d07,0x300e1d,0x300f07,0x30101d,
    0x301107,0x301212,0x30141d,0x301507,0x30161d,0x301707,0x30181d,0x301907,0x301a1d,0x301b07,0x301c1b,0x301d1d,0x301e07,0x302012,0x302a08,0x303012,
    0x303508,0x303612,0x303b1b,0x303d12,0x304000,0x30411b,0x304212,0x30431b,0x304412,0x30451b,0x304612,0x30471b,0x304812,0x30491b,0x304a12,0x30631b,
    0x306412,0x30831b,0x308412,0x30851b,0x308612,0x30871b,0x308812,0x308e1b,0x308f12,0x30951b,0x309700,0x309908,0x309b1b,0x309f12,0x30a01b,0x30a212,
    0x30a31b,0x30a412,0x30a51b,0x30a612,0x30a71b,0x30a812,0x30a91b,0x30aa12,0x30c31b,0x30c412,0x30e31b,0x30e412,0x30e51b,0x30e612,0x30e71b,0x30e812,
    0x30ee1b,0x30ef12,0x30f51b,0x30f712,0x30fb1b,0x30ff12,0x310000,0x310512,0x313000,0x313112,0x318f00,0x319012,0x31e400,0x31f01b,0x320012,0x321f00,
    0x322012,0x324801,0x325012,0x4dc001,0x4e0012,0xa0151b,0xa01612,0xa48d00,0xa49012,0xa4c700,0xa4d001,0xa4fe02,0xa50001,0xa60d02,0xa60e0d,0xa60f02,
    0xa61001,0xa6201c,0xa62a01,0xa62c00,0xa64001,0xa66f08,0xa67301,0xa67408,0xa67e01,0xa69e08,0xa6a001,0xa6f008,0xa6f201,0xa6f302,0xa6f800,0xa70001,
    0xa7cb00,0xa7d001,0xa7d200,0xa7d301,0xa7d400,0xa7d501,0xa7da00,0xa7f201,0xa80208,0xa80301,0xa80608,0xa80701,0xa80b08,0xa80c01,0xa82308,0xa82801,
    0xa82c08,0xa82d00,0xa83001,0xa8381e,0xa83901,0xa83a00,0xa84001,0xa87403,0xa8760d,0xa87800,0xa88008,0xa88201,0xa8b408,0xa8c600,0xa8ce02,0xa8d01c,
    0xa8da00,0xa8e008,0xa8f201,0xa8fc03,0xa8fd01,0xa8ff08,0xa9001c,0xa90a01,0xa92608,0xa92e02,0xa93001,0xa94708,0xa95400,0xa95f01,0xa96016,0xa97d00,
    0xa98008,0xa98401,0xa9b308,0xa9c101,0xa9c702,0xa9ca01,0xa9ce00,0xa9cf01,0xa9d01c,0xa9da00,0xa9de01,0xa9e508,0xa9e601,0xa9f01c,0xa9fa01,0xa9ff00,
    0xaa0001,0xaa2908,0xaa3700,0xaa4001,0xaa4308,0xaa4401,0xaa4c08,0xaa4e00,0xaa501c,0xaa5a00,0xaa5c01,0xaa5d02,0xaa6001,0xaa7b08,0xaa7e01,0xaab008,
    0xaab101,0xaab208,0xaab501,0xaab708,0xaab901,0xaabe08,0xaac001,0xaac108,0xaac201,0xaac300,0xaadb01,0xaaeb08,0xaaf002,0xaaf201,0xaaf508,0xaaf700,
    0xab0101,0xab0700,0xab0901,0xab0f00,0xab1101,0xab1700,0xab2001,0xab2700,0xab2801,0xab2f00,0xab3001,0xab6c00,0xab7001,0xabe308,0xabeb02,0xabec08,
    0xabee00,0xabf01c,0xabfa00,0xac000f,0xac0110,0xac1c0f,0xac1d10,0xac380f,0xac3910,0xac540f,0xac5510,0xac700f,0xac7110,0xac8c0f,0xac8d10,0xaca80f,
    0xaca910,0xacc40f,0xacc510,0xace00f,0xace110,0xacfc0f,0xacfd10,0xad180f,0xad1910,0xad340f,0xad3510,0xad500f,0xad5110,0xad6c0f,0xad6d10,0xad880f,
    0xad8910,0xada40f,0xada510,0xadc00f,0xadc110,0xaddc0f,0xaddd10,0xadf80f,0xadf910,0xae140f,0xae1510,0xae300f,0xae3110,0xae4c0f,0xae4d10,0xae680f,
    0xae6910,0xae840f,0xae8510,0xaea00f,0xaea110,0xaebc0f,0xaebd10,0xaed80f,0xaed910,0xaef40f,0xaef510,0xaf100f,0xaf1110,0xaf2c0f,0xaf2d10,0xaf480f,
    0xaf4910,0xaf640f,0xaf6510,0xaf800f,0xaf8110,0xaf9c0f,0xaf9d10,0xafb80f,0xafb910,0xafd40f,0xafd510,0xaff00f,0xaff110,0xb00c0f,0xb00d10,0xb0280f,
    0xb02910,0xb0440f,0xb04510,0xb0600f,0xb06110,0xb07c0f,0xb07d10,0xb0980f,0xb09910,0xb0b40f,0xb0b510,0xb0d00f,0xb0d110,0xb0ec0f,0xb0ed10,0xb1080f,
    0xb10910,0xb1240f,0xb12510,0xb1400f,0xb14110,0xb15c0f,0xb15d10,0xb1780f,0xb17910,0xb1940f,0xb19510,0xb1b00f,0xb1b110,0xb1cc0f,0xb1cd10,0xb1e80f,
    0xb1e910,0xb2040f,0xb20510,0xb2200f,0xb22110,0xb23c0f,0xb23d10,0xb2580f,0xb25910,0xb2740f,0xb27510,0xb2900f,0xb29110,0xb2ac0f,0xb2ad10,0xb2c80f,
    0xb2c910,0xb2e40f,0xb2e510,0xb3000f,0xb30110,0xb31c0f,0xb31d10,0xb3380f,0xb33910,0xb3540f,0xb35510,0xb3700f,0xb37110,0xb38c0f,0xb38d10,0xb3a80f,
    0xb3a910,0xb3c40f,0xb3c510,0xb3e00f,0xb3e110,0xb3fc0f,0xb3fd10,0xb4180f,0xb41910,0xb4340f,0xb43510,0xb4500f,0xb45110,0xb46c0f,0xb46d10,0xb4880f,
    0xb48910,0xb4a40f,0xb4a510,0xb4c00f,0xb4c110,0xb4dc0f,0xb4dd10,0xb4f80f,0xb4f910,0xb5140f,0xb51510,0xb5300f,0xb53110,0xb54c0f,0xb54d10,0xb5680f,
    0xb56910,0xb5840f,0xb58510,0xb5a00f,0xb5a110,0xb5bc0f,0xb5bd10,0xb5d80f,0xb5d910,0xb5f40f,0xb5f510,0xb6100f,0xb61110,0xb62c0f,0xb62d10,0xb6480f,
    0xb64910,0xb6640f,0xb66510,0xb6800f,0xb68110,0xb69c0f,0xb69d10,0xb6b80f,0xb6b910,0xb6d40f,0xb6d510,0xb6f00f,0xb6f110,0xb70c0f,0xb70d10,0xb7280f,
    0xb72910,0xb7440f,0xb74510,0xb7600f,0xb76110,0xb77c0f,0xb77d10,0xb7980f,0xb79910,0xb7b40f,0xb7b510,0xb7d00f,0xb7d110,0xb7ec0f,0xb7ed10,0xb8080f,
    0xb80910,0xb8240f,0xb82510,0xb8400f,0xb84110,0xb85c0f,0xb85d10,0xb8780f,0xb87910,0xb8940f,0xb89510,0xb8b00f,0xb8b110,0xb8cc0f,0xb8cd10,0xb8e80f,
    0xb8e910,0xb9040f,0xb90510,0xb9200f,0xb92110,0xb93c0f,0xb93d10,0xb9580f,0xb95910,0xb9740f,0xb97510,0xb9900f,0xb99110,0xb9ac0f,0xb9ad10,0xb9c80f,
    0xb9c910,0xb9e40f,0xb9e510,0xba000f,0xba0110,0xba1c0f,0xba1d10,0xba380f,0xba3910,0xba540f,0xba5510,0xba700f,0xba7110,0xba8c0f,0xba8d10,0xbaa80f,
    0xbaa910,0xbac40f,0xbac510,0xbae00f,0xbae110,0xbafc0f,0xbafd10,0xbb180f,0xbb1910,0xbb340f,0xbb3510,0xbb500f,0xbb5110,0xbb6c0f,0xbb6d10,0xbb880f,
    0xbb8910,0xbba40f,0xbba510,0xbbc00f,0xbbc110,0xbbdc0f,0xbbdd10,0xbbf80f,0xbbf910,0xbc140f,0xbc1510,0xbc300f,0xbc3110,0xbc4c0f,0xbc4d10,0xbc680f,
    0xbc6910,0xbc840f,0xbc8510,0xbca00f,0xbca110,0xbcbc0f,0xbcbd10,0xbcd80f,0xbcd910,0xbcf40f,0xbcf510,0xbd100f,0xbd1110,0xbd2c0f,0xbd2d10,0xbd480f,
    0xbd4910,0xbd640f,0xbd6510,0xbd800f,0xbd8110,0xbd9c0f,0xbd9d10,0xbdb80f,0xbdb910,0xbdd40f,0xbdd510,0xbdf00f,0xbdf110,0xbe0c0f,0xbe0d10,0xbe280f,
    0xbe2910,0xbe440f,0xbe4510,0xbe600f,0xbe6110,0xbe7c0f,0xbe7d10,0xbe980f,0xbe9910,0xbeb40f,0xbeb510,0xbed00f,0xbed110,0xbeec0f,0xbeed10,0xbf080f,
    0xbf0910,0xbf240f,0xbf2510,0xbf400f,0xbf4110,0xbf5c0f,0xbf5d10,0xbf780f,0xbf7910,0xbf940f,0xbf9510,0xbfb00f,0xbfb110,0xbfcc0f,0xbfcd10,0xbfe80f,
    0xbfe910,0xc0040f,0xc00510,0xc0200f,0xc02110,0xc03c0f,0xc03d10,0xc0580f,0xc05910,0xc0740f,0xc07510,0xc0900f,0xc09110,0xc0ac0f,0xc0ad10,0xc0c80f,
    0xc0c910,0xc0e40f,0xc0e510,0xc1000f,0xc10110,0xc11c0f,0xc11d10,0xc1380f,0xc13910,0xc1540f,0xc15510,0xc1700f,0xc17110,0xc18c0f,0xc18d10,0xc1a80f,
    0xc1a910,0xc1c40f,0xc1c510,0xc1e00f,0xc1e110,0xc1fc0f,0xc1fd10,0xc2180f,0xc21910,0xc2340f,0xc23510,0xc2500f,0xc25110,0xc26c0f,0xc26d10,0xc2880f,
    0xc28910,0xc2a40f,0xc2a510,0xc2c00f,0xc2c110,0xc2dc0f,0xc2dd10,0xc2f80f,0xc2f910,0xc3140f,0xc31510,0xc3300f,0xc33110,0xc34c0f,0xc34d10,0xc3680f,
    0xc36910,0xc3840f,0xc38510,0xc3a00f,0xc3a110,0xc3bc0f,0xc3bd10,0xc3d80f,0xc3d910,0xc3f40f,0xc3f510,0xc4100f,0xc41110,0xc42c0f,0xc42d10,0xc4480f,
    0xc44910,0xc4640f,0xc46510,0xc4800f,0xc48110,0xc49c0f,0xc49d10,0xc4b80f,0xc4b910,0xc4d40f,0xc4d510,0xc4f00f,0xc4f110,0xc50c0f,0xc50d10,0xc5280f,
    0xc52910,0xc5440f,0xc54510,0xc5600f,0xc56110,0xc57c0f,0xc57d10,0xc5980f,0xc59910,0xc5b40f,0xc5b510,0xc5d00f,0xc5d110,0xc5ec0f,0xc5ed10,0xc6080f,
    0xc60910,0xc6240f,0xc62510,0xc6400f,0xc64110,0xc65c0f,0xc65d10,0xc6780f,0xc67910,0xc6940f,0xc69510,0xc6b00f,0xc6b110,0xc6cc0f,0xc6cd10,0xc6e80f,
    0xc6e910,0xc7040f,0xc70510,0xc7200f,0xc72110,0xc73c0f,0xc73d10,0xc7580f,0xc75910,0xc7740f,0xc77510,0xc7900f,0xc79110,0xc7ac0f,0xc7ad10,0xc7c80f,
    0xc7c910,0xc7e40f,0xc7e510,0xc8000f,0xc80110,0xc81c0f,0xc81d10,0xc8380f,0xc83910,0xc8540f,0xc85510,0xc8700f,0xc87110,0xc88c0f,0xc88d10,0xc8a80f,
    0xc8a910,0xc8c40f,0xc8c510,0xc8e00f,0xc8e110,0xc8fc0f,0xc8fd10,0xc9180f,0xc91910,0xc9340f,0xc93510,0xc9500f,0xc95110,0xc96c0f,0xc96d10,0xc9880f,
    0xc98910,0xc9a40f,0xc9a510,0xc9c00f,0xc9c110,0xc9dc0f,0xc9dd10,0xc9f80f,0xc9f910,0xca140f,0xca1510,0xca300f,0xca3110,0xca4c0f,0xca4d10,0xca680f,
    0xca6910,0xca840f,0xca8510,0xcaa00f,0xcaa110,0xcabc0f,0xcabd10,0xcad80f,0xcad910,0xcaf40f,0xcaf510,0xcb100f,0xcb1110,0xcb2c0f,0xcb2d10,0xcb480f,
    0xcb4910,0xcb640f,0xcb6510,0xcb800f,0xcb8110,0xcb9c0f,0xcb9d10,0xcbb80f,0xcbb910,0xcbd40f,0xcbd510,0xcbf00f,0xcbf110,0xcc0c0f,0xcc0d10,0xcc280f,
    0xcc2910,0xcc440f,0xcc4510,0xcc600f,0xcc6110,0xcc7c0f,0xcc7d10,0xcc980f,0xcc9910,0xccb40f,0xccb510,0xccd00f,0xccd110,0xccec0f,0xcced10,0xcd080f,
    0xcd0910,0xcd240f,0xcd2510,0xcd400f,0xcd4110,0xcd5c0f,0xcd5d10,0xcd780f,0xcd7910,0xcd940f,0xcd9510,0xcdb00f,0xcdb110,0xcdcc0f,0xcdcd10,0xcde80f,
    0xcde910,0xce040f,0xce0510,0xce200f,0xce2110,0xce3c0f,0xce3d10,0xce580f,0xce5910,0xce740f,0xce7510,0xce900f,0xce9110,0xceac0f,0xcead10,0xcec80f,
    0xcec910,0xcee40f,0xcee510,0xcf000f,0xcf0110,0xcf1c0f,0xcf1d10,0xcf380f,0xcf3910,0xcf540f,0xcf5510,0xcf700f,0xcf7110,0xcf8c0f,0xcf8d10,0xcfa80f,
    0xcfa910,0xcfc40f,0xcfc510,0xcfe00f,0xcfe110,0xcffc0f,0xcffd10,0xd0180f,0xd01910,0xd0340f,0xd03510,0xd0500f,0xd05110,0xd06c0f,0xd06d10,0xd0880f,
    0xd08910,0xd0a40f,0xd0a510,0xd0c00f,0xd0c110,0xd0dc0f,0xd0dd10,0xd0f80f,0xd0f910,0xd1140f,0xd11510,0xd1300f,0xd13110,0xd14c0f,0xd14d10,0xd1680f,
    0xd16910,0xd1840f,0xd18510,0xd1a00f,0xd1a110,0xd1bc0f,0xd1bd10,0xd1d80f,0xd1d910,0xd1f40f,0xd1f510,0xd2100f,0xd21110,0xd22c0f,0xd22d10,0xd2480f,
    0xd24910,0xd2640f,0xd26510,0xd2800f,0xd28110,0xd29c0f,0xd29d10,0xd2b80f,0xd2b910,0xd2d40f,0xd2d510,0xd2f00f,0xd2f110,0xd30c0f,0xd30d10,0xd3280f,
    0xd32910,0xd3440f,0xd34510,0xd3600f,0xd36110,0xd37c0f,0xd37d10,0xd3980f,0xd39910,0xd3b40f,0xd3b510,0xd3d00f,0xd3d110,0xd3ec0f,0xd3ed10,0xd4080f,
    0xd40910,0xd4240f,0xd42510,0xd4400f,0xd44110,0xd45c0f,0xd45d10,0xd4780f,0xd47910,0xd4940f,0xd49510,0xd4b00f,0xd4b110,0xd4cc0f,0xd4cd10,0xd4e80f,
    0xd4e910,0xd5040f,0xd50510,0xd5200f,0xd52110,0xd53c0f,0xd53d10,0xd5580f,0xd55910,0xd5740f,0xd57510,0xd5900f,0xd59110,0xd5ac0f,0xd5ad10,0xd5c80f,
    0xd5c910,0xd5e40f,0xd5e510,0xd6000f,0xd60110,0xd61c0f,0xd61d10,0xd6380f,0xd63910,0xd6540f,0xd65510,0xd6700f,0xd67110,0xd68c0f,0xd68d10,0xd6a80f,
    0xd6a910,0xd6c40f,0xd6c510,0xd6e00f,0xd6e110,0xd6fc0f,0xd6fd10,0xd7180f,0xd71910,0xd7340f,0xd73510,0xd7500f,0xd75110,0xd76c0f,0xd76d10,0xd7880f,
    0xd78910,0xd7a400,0xd7b018,0xd7c700,0xd7cb17,0xd7fc00,0xd80001,0xf90012,0xfb0001,0xfb0700,0xfb1301,0xfb1800,0xfb1d13,0xfb1e08,0xfb1f13,0xfb2901,
    0xfb2a13,0xfb3700,0xfb3813,0xfb3d00,0xfb3e13,0xfb3f00,0xfb4013,0xfb4200,0xfb4313,0xfb4500,0xfb4613,0xfb5001,0xfbc300,0xfbd301,0xfd3e07,0xfd3f1d,
    0xfd4001,0xfd9000,0xfd9201,0xfdc800,0xfdcf01,0xfdd000,0xfdf001,0xfdfc1e,0xfdfd01,0xfe0008,0xfe1015,0xfe1107,0xfe1315,0xfe150d,0xfe171d,0xfe1807,
    0xfe1914,0xfe1a00,0xfe2008,0xfe3012,0xfe351d,0xfe3607,0xfe371d,0xfe3807,0xfe391d,0xfe3a07,0xfe3b1d,0xfe3c07,0xfe3d1d,0xfe3e07,0xfe3f1d,0xfe4007,
    0xfe411d,0xfe4207,0xfe431d,0xfe4407,0xfe4512,0xfe471d,0xfe4807,0xfe4912,0xfe5007,0xfe5112,0xfe5207,0xfe5300,0xfe541b,0xfe560d,0xfe5812,0xfe591d,
    0xfe5a07,0xfe5b1d,0xfe5c07,0xfe5d1d,0xfe5e07,0xfe5f12,0xfe6700,0xfe6812,0xfe691f,0xfe6a1e,0xfe6b12,0xfe6c00,0xfe7001,0xfe7500,0xfe7601,0xfefd00,
    0xfeff24,0xff0000,0xff010d,0xff0212,0xff041f,0xff051e,0xff0612,0xff081d,0xff0907,0xff0a12,0xff0c07,0xff0d12,0xff0e07,0xff0f12,0xff1a1b,0xff1c12,
    0xff1f0d,0xff2012,0xff3b1d,0xff3c12,0xff3d07,0xff3e12,0xff5b1d,0xff5c12,0xff5d07,0xff5e12,0xff5f1d,0xff6007,0xff621d,0xff6307,0xff651b,0xff6612,
    0xff671b,0xff7112,0xff9e1b,0xffa012,0xffbf00,0xffc212,0xffc800,0xffca12,0xffd000,0xffd212,0xffd800,0xffda12,0xffdd00,0xffe01e,0xffe11f,0xffe212,
    0xffe51f,0xffe700,0xffe801,0xffef00,0xfff908,0xfffc06,0xfffd01,0xfffe00,0x1000001,0x1000c00,0x1000d01,0x1002700,0x1002801,0x1003b00,0x1003c01,0x1003e00,
    0x1003f01,0x1004e00,0x1005001,0x1005e00,0x1008001,0x100fb00,0x1010002,0x1010300,0x1010701,0x1013400,0x1013701,0x1018f00,0x1019001,0x1019d00,0x101a001,0x101a100,
    0x101d001,0x101fd08,0x101fe00,0x1028001,0x1029d00,0x102a001,0x102d100,0x102e008,0x102e101,0x102fc00,0x1030001,0x1032400,0x1032d01,0x1034b00,0x1035001,0x1037608,
    0x1037b00,0x1038001,0x1039e00,0x1039f02,0x103a001,0x103c400,0x103c801,0x103d002,0x103d101,0x103d600,0x1040001,0x1049e00,0x104a01c,0x104aa00,0x104b001,0x104d400,
    0x104d801,0x104fc00,0x1050001,0x1052800,0x1053001,0x1056400,0x1056f01,0x1057b00,0x1057c01,0x1058b00,0x1058c01,0x1059300,0x1059401,0x1059600,0x1059701,0x105a200,
    0x105a301,0x105b200,0x105b301,0x105ba00,0x105bb01,0x105bd00,0x1060001,0x1073700,0x1074001,0x1075600,0x1076001,0x1076800,0x1078001,0x1078600,0x1078701,0x107b100,
    0x107b201,0x107bb00,0x1080001,0x1080600,0x1080801,0x1080900,0x1080a01,0x1083600,0x1083701,0x1083900,0x1083c01,0x1083d00,0x1083f01,0x1085600,0x1085702,0x1085801,
    0x1089f00,0x108a701,0x108b000,0x108e001,0x108f300,0x108f401,0x108f600,0x108fb01,0x1091c00,0x1091f02,0x1092001,0x1093a00,0x1093f01,0x1094000,0x1098001,0x109b800,
    0x109bc01,0x109d000,0x109d201,0x10a0108,0x10a0400,0x10a0508,0x10a0700,0x10a0c08,0x10a1001,0x10a1400,0x10a1501,0x10a1800,0x10a1901,0x10a3600,0x10a3808,0x10a3b00,
    0x10a3f08,0x10a4001,0x10a4900,0x10a5002,0x10a5801,0x10a5900,0x10a6001,0x10aa000,0x10ac001,0x10ae508,0x10ae700,0x10aeb01,0x10af002,0x10af614,0x10af700,0x10b0001,
    0x10b3600,0x10b3902,0x10b4001,0x10b5600,0x10b5801,0x10b7300,0x10b7801,0x10b9200,0x10b9901,0x10b9d00,0x10ba901,0x10bb000,0x10c0001,0x10c4900,0x10c8001,0x10cb300,
    0x10cc001,0x10cf300,0x10cfa01,0x10d2408,0x10d2800,0x10d301c,0x10d3a00,0x10e6001,0x10e7f00,0x10e8001,0x10eaa00,0x10eab08,0x10ead02,0x10eae00,0x10eb001,0x10eb200,
    0x10f0001,0x10f2800,0x10f3001,0x10f4608,0x10f5101,0x10f5a00,0x10f7001,0x10f8208,0x10f8601,0x10f8a00,0x10fb001,0x10fcc00,0x10fe001,0x10ff700,0x1100008,0x1100301,
    0x1103808,0x1104702,0x1104901,0x1104e00,0x1105201,0x110661c,0x1107008,0x1107101,0x1107308,0x1107501,0x1107600,0x1107f08,0x1108301,0x110b008,0x110bb01,0x110be02,
    0x110c208,0x110c300,0x110cd01,0x110ce00,0x110d001,0x110e900,0x110f01c,0x110fa00,0x1110008,0x1110301,0x1112708,0x1113500,0x111361c,0x1114002,0x1114401,0x1114508,
    0x1114701,0x1114800,0x1115001,0x1117308,0x1117401,0x1117503,0x1117601,0x1117700,0x1118008,0x1118301,0x111b308,0x111c101,0x111c502,0x111c701,0x111c802,0x111c908,
    0x111cd01,0x111ce08,0x111d01c,0x111da01,0x111db03,0x111dc01,0x111dd02,0x111e000,0x111e101,0x111f500,0x1120001,0x1121200,0x1121301,0x1122c08,0x1123802,0x1123a01,
    0x1123b02,0x1123d01,0x1123e08,0x1123f00,0x1128001,0x1128700,0x1128801,0x1128900,0x1128a01,0x1128e00,0x1128f01,0x1129e00,0x1129f01,0x112a902,0x112aa00,0x112b001,
    0x112df08,0x112eb00,0x112f01c,0x112fa00,0x1130008,0x1130400,0x1130501,0x1130d00,0x1130f01,0x1131100,0x1131301,0x1132900,0x1132a01,0x1133100,0x1133201,0x1133400,
    0x1133501,0x1133a00,0x1133b08,0x1133d01,0x1133e08,0x1134500,0x1134708,0x1134900,0x1134b08,0x1134e00,0x1135001,0x1135100,0x1135708,0x1135800,0x1135d01,0x1136208,
    0x1136400,0x1136608,0x1136d00,0x1137008,0x1137500,0x1140001,0x1143508,0x1144701,0x1144b02,0x1144f01,0x114501c,0x1145a02,0x1145c00,0x1145d01,0x1145e08,0x1145f01,
    0x1146200,0x1148001,0x114b008,0x114c401,0x114c800,0x114d01c,0x114da00,0x1158001,0x115af08,0x115b600,0x115b808,0x115c103,0x115c202,0x115c40d,0x115c601,0x115c902,
    0x115d801,0x115dc08,0x115de00,0x1160001,0x1163008,0x1164102,0x1164301,0x1164500,0x116501c,0x1165a00,0x1166003,0x1166d00,0x1168001,0x116ab08,0x116b801,0x116ba00,
    0x116c01c,0x116ca00,0x1170001,0x1171b00,0x1171d08,0x1172c00,0x117301c,0x1173a01,0x1173c02,0x1173f01,0x1174700,0x1180001,0x1182c08,0x1183b01,0x1183c00,0x118a001,
    0x118e01c,0x118ea01,0x118f300,0x118ff01,0x1190700,0x1190901,0x1190a00,0x1190c01,0x1191400,0x1191501,0x1191700,0x1191801,0x1193008,0x1193600,0x1193708,0x1193900,
    0x1193b08,0x1193f01,0x1194008,0x1194101,0x1194208,0x1194402,0x1194700,0x119501c,0x1195a00,0x119a001,0x119a800,0x119aa01,0x119d108,0x119d800,0x119da08,0x119e101,
    0x119e203,0x119e301,0x119e408,0x119e500,0x11a0001,0x11a0108,0x11a0b01,0x11a3308,0x11a3a01,0x11a3b08,0x11a3f03,0x11a4001,0x11a4102,0x11a4503,0x11a4601,0x11a4708,
    0x11a4800,0x11a5001,0x11a5108,0x11a5c01,0x11a8a08,0x11a9a02,0x11a9d01,0x11a9e03,0x11aa102,0x11aa300,0x11ab001,0x11af900,0x11c0001,0x11c0900,0x11c0a01,0x11c2f08,
    0x11c3700,0x11c3808,0x11c4001,0x11c4102,0x11c4600,0x11c501c,0x11c5a01,0x11c6d00,0x11c7003,0x11c710d,0x11c7201,0x11c9000,0x11c9208,0x11ca800,0x11ca908,0x11cb700,
    0x11d0001,0x11d0700,0x11d0801,0x11d0a00,0x11d0b01,0x11d3108,0x11d3700,0x11d3a08,0x11d3b00,0x11d3c08,0x11d3e00,0x11d3f08,0x11d4601,0x11d4708,0x11d4800,0x11d501c,
    0x11d5a00,0x11d6001,0x11d6600,0x11d6701,0x11d6900,0x11d6a01,0x11d8a08,0x11d8f00,0x11d9008,0x11d9200,0x11d9308,0x11d9801,0x11d9900,0x11da01c,0x11daa00,0x11ee001,
    0x11ef308,0x11ef701,0x11ef900,0x11fb001,0x11fb100,0x11fc001,0x11fdd1e,0x11fe101,0x11ff200,0x11fff02,0x1200001,0x1239a00,0x1240001,0x1246f00,0x1247002,0x1247500,
    0x1248001,0x1254400,0x12f9001,0x12ff300,0x1300001,0x132581d,0x1325b07,0x1325e01,0x1328207,0x1328301,0x132861d,0x1328707,0x132881d,0x1328907,0x1328a01,0x133791d,
    0x1337a07,0x1337c01,0x1342f00,0x134300e,0x134371d,0x1343807,0x1343900,0x1440001,0x145ce1d,0x145cf07,0x145d001,0x1464700,0x1680001,0x16a3900,0x16a4001,0x16a5f00,
    0x16a601c,0x16a6a00,0x16a6e02,0x16a7001,0x16abf00,0x16ac01c,0x16aca00,0x16ad001,0x16aee00,0x16af008,0x16af502,0x16af600,0x16b0001,0x16b3008,0x16b3702,0x16b3a01,
    0x16b4402,0x16b4501,0x16b4600,0x16b501c,0x16b5a00,0x16b5b01,0x16b6200,0x16b6301,0x16b7800,0x16b7d01,0x16b9000,0x16e4001,0x16e9702,0x16e9901,0x16e9b00,0x16f0001,
    0x16f4b00,0x16f4f08,0x16f5001,0x16f5108,0x16f8800,0x16f8f08,0x16f9301,0x16fa000,0x16fe01b,0x16fe40e,0x16fe500,0x16ff008,0x16ff200,0x1700012,0x187f800,0x1880012,
    0x18b0001,0x18cd600,0x18d0012,0x18d0900,0x1aff001,0x1aff400,0x1aff501,0x1affc00,0x1affd01,0x1afff00,0x1b00012,0x1b12300,0x1b1501b,0x1b15300,0x1b1641b,0x1b16800,
    0x1b17012,0x1b2fc00,0x1bc0001,0x1bc6b00,0x1bc7001,0x1bc7d00,0x1bc8001,0x1bc8900,0x1bc9001,0x1bc9a00,0x1bc9c01,0x1bc9d08,0x1bc9f02,0x1bca008,0x1bca400,0x1cf0008,
    0x1cf2e00,0x1cf3008,0x1cf4700,0x1cf5001,0x1cfc400,0x1d00001,0x1d0f600,0x1d10001,0x1d12700,0x1d12901,0x1d16508,0x1d16a01,0x1d16d08,0x1d18301,0x1d18508,0x1d18c01,
    0x1d1aa08,0x1d1ae01,0x1d1eb00,0x1d20001,0x1d24208,0x1d24501,0x1d24600,0x1d2e001,0x1d2f400,0x1d30001,0x1d35700,0x1d36001,0x1d37900,0x1d40001,0x1d45500,0x1d45601,
    0x1d49d00,0x1d49e01,0x1d4a000,0x1d4a201,0x1d4a300,0x1d4a501,0x1d4a700,0x1d4a901,0x1d4ad00,0x1d4ae01,0x1d4ba00,0x1d4bb01,0x1d4bc00,0x1d4bd01,0x1d4c400,0x1d4c501,
    0x1d50600,0x1d50701,0x1d50b00,0x1d50d01,0x1d51500,0x1d51601,0x1d51d00,0x1d51e01,0x1d53a00,0x1d53b01,0x1d53f00,0x1d54001,0x1d54500,0x1d54601,0x1d54700,0x1d54a01,
    0x1d55100,0x1d55201,0x1d6a600,0x1d6a801,0x1d7cc00,0x1d7ce1c,0x1d80001,0x1da0008,0x1da3701,0x1da3b08,0x1da6d01,0x1da7508,0x1da7601,0x1da8408,0x1da8501,0x1da8702,
    0x1da8b01,0x1da8c00,0x1da9b08,0x1daa000,0x1daa108,0x1dab000,0x1df0001,0x1df1f00,0x1e00008,0x1e00700,0x1e00808,0x1e01900,0x1e01b08,0x1e02200,0x1e02308,0x1e02500,
    0x1e02608,0x1e02b00,0x1e10001,0x1e12d00,0x1e13008,0x1e13701,0x1e13e00,0x1e1401c,0x1e14a00,0x1e14e01,0x1e15000,0x1e29001,0x1e2ae08,0x1e2af00,0x1e2c001,0x1e2ec08,
    0x1e2f01c,0x1e2fa00,0x1e2ff1f,0x1e30000,0x1e7e001,0x1e7e700,0x1e7e801,0x1e7ec00,0x1e7ed01,0x1e7ef00,0x1e7f001,0x1e7ff00,0x1e80001,0x1e8c500,0x1e8c701,0x1e8d008,
    0x1e8d700,0x1e90001,0x1e94408,0x1e94b01,0x1e94c00,0x1e9501c,0x1e95a00,0x1e95e1d,0x1e96000,0x1ec7101,0x1ecac1e,0x1ecad01,0x1ecb01e,0x1ecb101,0x1ecb500,0x1ed0101,
    0x1ed3e00,0x1ee0001,0x1ee0400,0x1ee0501,0x1ee2000,0x1ee2101,0x1ee2300,0x1ee2401,0x1ee2500,0x1ee2701,0x1ee2800,0x1ee2901,0x1ee3300,0x1ee3401,0x1ee3800,0x1ee3901,
    0x1ee3a00,0x1ee3b01,0x1ee3c00,0x1ee4201,0x1ee4300,0x1ee4701,0x1ee4800,0x1ee4901,0x1ee4a00,0x1ee4b01,0x1ee4c00,0x1ee4d01,0x1ee5000,0x1ee5101,0x1ee5300,0x1ee5401,
    0x1ee5500,0x1ee5701,0x1ee5800,0x1ee5901,0x1ee5a00,0x1ee5b01,0x1ee5c00,0x1ee5d01,0x1ee5e00,0x1ee5f01,0x1ee6000,0x1ee6101,0x1ee6300,0x1ee6401,0x1ee6500,0x1ee6701,
    0x1ee6b00,0x1ee6c01,0x1ee7300,0x1ee7401,0x1ee7800,0x1ee7901,0x1ee7d00,0x1ee7e01,0x1ee7f00,0x1ee8001,0x1ee8a00,0x1ee8b01,0x1ee9c00,0x1eea101,0x1eea400,0x1eea501,
    0x1eeaa00,0x1eeab01,0x1eebc00,0x1eef001,0x1eef200,0x1f00012,0x1f10001,0x1f10d12,0x1f11001,0x1f16d12,0x1f17001,0x1f1ad12,0x1f1e621,0x1f20012,0x1f3850b,0x1f38612,
    0x1f39c01,0x1f39e12,0x1f3b501,0x1f3b712,0x1f3bc01,0x1f3bd12,0x1f3c20b,0x1f3c512,0x1f3c70b,0x1f3c812,0x1f3ca0b,0x1f3cd12,0x1f3fb0c,0x1f40012,0x1f4420b,0x1f44412,
    0x1f4460b,0x1f45112,0x1f4660b,0x1f47912,0x1f47c0b,0x1f47d12,0x1f4810b,0x1f48412,0x1f4850b,0x1f48812,0x1f48f0b,0x1f49012,0x1f4910b,0x1f49212,0x1f4a001,0x1f4a112,
    0x1f4a201,0x1f4a312,0x1f4a401,0x1f4a512,0x1f4aa0b,0x1f4ab12,0x1f4af01,0x1f4b012,0x1f4b101,0x1f4b312,0x1f50001,0x1f50712,0x1f51701,0x1f52512,0x1f53201,0x1f54a12,
    0x1f5740b,0x1f57612,0x1f57a0b,0x1f57b12,0x1f5900b,0x1f59112,0x1f5950b,0x1f59712,0x1f5d401,0x1f5dc12,0x1f5f401,0x1f5fa12,0x1f6450b,0x1f64812,0x1f64b0b,0x1f65001,
    0x1f67620,0x1f6791b,0x1f67c01,0x1f68012,0x1f6a30b,0x1f6a412,0x1f6b40b,0x1f6b712,0x1f6c00b,0x1f6c112,0x1f6cc0b,0x1f6cd12,0x1f70001,0x1f77412,0x1f78001,0x1f7d512,
    0x1f80001,0x1f80c12,0x1f81001,0x1f84812,0x1f85001,0x1f85a12,0x1f86001,0x1f88812,0x1f89001,0x1f8ae12,0x1f90001,0x1f90c0b,0x1f90d12,0x1f90f0b,0x1f91012,0x1f9180b,
    0x1f92012,0x1f9260b,0x1f92712,0x1f9300b,0x1f93a12,0x1f93c0b,0x1f93f12,0x1f9770b,0x1f97812,0x1f9b50b,0x1f9b712,0x1f9b80b,0x1f9ba12,0x1f9bb0b,0x1f9bc12,0x1f9cd0b,
    0x1f9d012,0x1f9d10b,0x1f9de12,0x1fa0001,0x1fa5412,0x1fac30b,0x1fac612,0x1faf00b,0x1faf712,0x1fb0001,0x1fb9300,0x1fb9401,0x1fbcb00,0x1fbf01c,0x1fbfa00,0x1fc0012,
    0x1fffe00,0x2000012,0x2fffe00,0x3000012,0x3fffe00,0xe000108,0xe000200,0xe002008,0xe008000,0xe010008,0xe01f000,0xf000001,0xffffe00,0x10000001,0x10fffe00,0x11000000,
};
}  // namespace unicode14
