"""What the codes of activities of the German time use survey stand for."""
DEMOD = {
    'only main activity': [0],
    'sleeping': [110, 132],
    'eating': [120],
    'self_washing': [131],
    'personal': [139],
    'job': [210, 220, 230, 241, 242, 243, 244, 245, 249],
    'school': [311, 312, 313, 314, 315, 317, 319, 321, 329, 330, 341, 349,
        361, 362, 363, 364, 369],
    'school homework': [353, 354],
    'cooking': [411, 413, 412, 414, 419],
    'cleaning': [421, 422, 423, 429],
    'laundry': [431, 432, 433, 434, 439],
    'house work': [441, 442, 443, 444, 445, 446, 449, 451, 452, 453, 454,
        455, 459],
    'shopping': [461, 464, 465, 466, 469],
    'family care': [471, 472, 473, 474, 475, 476, 479, 480, 491, 492, 499],
    'socio-political': [510, 520, 531, 532, 539],
    'leisure': [611, 621, 622, 623, 624, 625, 626, 627, 629, 630, 641, 642,
        649, 711, 712, 713, 715, 716, 717, 719, 730, 740, 752, 759, 761,
        762, 769, 790, 811, 812, 813, 814, 815, 819],
    'telphone': [612],
    'computer': [763],
    'watching_tv': [820],
    'music': [830],
    'computer/smartphone': [841, 842, 843, 844, 849],
    'transportation': [921, 922, 923, 929, 931, 934, 939, 941, 945, 946,
        947, 948, 949, 951, 952, 953, 959, 961, 962, 969, 970, 980, 991,
        992, 997, 998, 999],
}
BOTTACCIOLI = {
    'other': [0, 120, 132, 139, 210, 220, 230, 241, 242, 243, 244, 245, 249,
        311, 312, 313, 314, 315, 317, 319, 321, 329, 330, 341, 349, 361,
        362, 363, 364, 369, 423, 429, 433, 434, 439, 441, 442, 443, 444,
        445, 446, 449, 451, 452, 453, 454, 455, 459, 461, 464, 465, 466,
        469, 471, 472, 473, 474, 475, 476, 479, 480, 491, 492, 499, 510,
        520, 531, 532, 539, 611, 612, 621, 622, 623, 624, 625, 626, 627,
        629, 630, 641, 642, 649, 711, 712, 713, 715, 716, 717, 719, 730,
        740, 752, 759, 761, 762, 769, 790, 811, 812, 813, 814, 815, 819,
        921, 922, 923, 929, 931, 934, 939, 941, 945, 946, 947, 948, 949,
        951, 952, 953, 959, 961, 962, 969, 970, 980, 991, 992, 997, 998, 999],
    'sleeping': [110],
    'self_washing': [131],
    'studying': [353, 354],
    'cooking': [411, 412, 414, 419],
    'dishwashing': [413],
    'cleaning': [421, 422],
    'laundry': [431],
    'ironing': [432],
    'electronics': [763, 841, 842, 843, 844, 849],
    'watching_tv': [820],
    'music': [830],
}
USES = {
    'Act_WashDress': [131],
    'Act_Cooking': [411, 412, 414, 419],
    'Act_Dishwashing': [413],
    'Act_HouseClean': [421, 422],
    'Act_Laundry': [431],
    'Act_Iron': [432],
    'Act_TV': [820],
    'Act_Elec': [841, 842, 843, 844, 849],
}
NOT_ACTIVE = [110, 132]

# How much each activity suggests to be at home.
HOME = {
    -2: [311, 312, 313, 314, 315, 317, 319, 321, 329, 330, 341, 349, 362,
        363, 364, 461, 531, 621, 622, 623, 624, 625, 626, 627, 711, 712,
        713, 715, 716, 717, 719, 921, 922, 923, 929, 931, 934, 939, 941,
        945, 946, 947, 948, 949, 951, 952, 953, 959, 961, 962, 969, 970,
        980, 991, 992],
    -1: [210, 220, 230, 241, 243, 244, 245, 249, 464, 465, 466, 469, 510,
        520, 532, 539, 790],
    0: [0, 242, 369, 480, 611, 612, 629, 630, 641, 642, 649, 730, 752,
        759, 761, 762, 769, 811, 812, 998, 999],
    1: [110, 120, 131, 132, 353, 354, 361, 491, 492, 499, 740, 763, 813,
        814, 815, 819, 830, 841, 842, 843, 844, 849, 997],
    2: [139, 411, 413, 412, 414, 419, 421, 422, 423, 429, 431, 432, 433,
        434, 439, 441, 442, 443, 444, 445, 446, 449, 451, 452, 453, 454,
        455, 459, 471, 472, 473, 474, 475, 476, 479, 820],
}
