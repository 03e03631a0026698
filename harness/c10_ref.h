// generated by tools/gen_c10.py: piecewise polynomials (of degree 10) for the standard normal quantile, error < 1e-11
struct Piece { double a, b, m, c[11]; };
static const Piece central[] = {
    {-0.42, -0.4, -0.41000000000000003, {-1.3407550336902165, 6.157990848512874, -25.4212861246917, 178.84418860835575, -1428.783401331079, 12341.529049592491, -111778.93097633436, 1045546.4725932861, -10015501.423668468, 100408293.57717378, -993643495.2128093}},
    {-0.4, -0.375, -0.3875, {-1.2133396224885178, 5.233263360308773, -16.61489366235662, 94.2206159503669, -600.3839215884632, 4145.593375064428, -30013.290755192185, 224448.33613186982, -1719131.1129850992, 13781444.625421172, -109063637.59930007}},
    {-0.375, -0.34, -0.35750000000000004, {-1.0691546270064722, 4.439245108717076, -10.534860128059597, 47.91460347518434, -239.76377048016266, 1306.5611060848923, -7460.418938855907, 44010.68180878062, -265970.5904744098, 1692912.740826956, -10573754.451243967}},
    {-0.34, -0.29, -0.315, {-0.8964733640019161, 3.746307841570494, -6.290922244693351, 22.84835636280743, -86.98221577388286, 365.7063320821076, -1605.7527126125456, 7290.6965859948405, -33913.99059303787, 167388.44200491175, -805036.1153927346}},
    {-0.29, -0.22, -0.255, {-0.6903088239330339, 3.1810192662279255, -3.4925773090986616, 10.477594149581376, -29.036026660873784, 93.28943880476879, -307.54408195036484, 1055.0030441754686, -3700.959831388882, 13854.557510190678, -50288.68687035529}},
    {-0.22, -0.12, -0.16999999999999998, {-0.43991316567323374, 2.761296538835354, -1.6771158412073626, 4.867199251502273, -8.696786623890299, 22.476032353897015, -52.701188765534084, 137.01477049126242, -352.6832600172764, 990.6015391378115, -2661.2335799185967}},
    {-0.12, 0.0, -0.06, {-0.15096921549677725, 2.535356821737195, -0.4852176412046159, 2.8400415916413695, -1.8549576894479634, 7.037171189771316, -7.490145727949322, 22.43395742663265, -31.246228305131158, 85.00158328663018, -139.78500067148153}},
};   // measured error 4.0e-14
static const Piece tail[] = {
    {0.9265295931007006, 1.2, 1.0632647965503503, {-1.5959116334102579, -1.4331294758230275, -0.28041915458399413, -0.049262454783864124, -0.006534677354844762, -0.0006341061438799835, -4.678346862400791e-05, -3.6846563256972427e-06, -3.7937560869569315e-07, -1.2918493724367759e-08, 4.070058949384582e-09}},
    {1.2, 1.6, 1.4, {-2.112261477943297, -1.63978123879749, -0.33488168026559717, -0.058820772913917616, -0.0076871501434437545, -0.0007382296352120444, -5.670388060275726e-05, -4.7412606847105166e-06, -3.987716488664313e-07, -6.494665376476691e-10, 2.8331433796570507e-09}},
    {1.6, 2.0, 1.8, {-2.825724162574818, -1.9379865828901373, -0.4133415784125566, -0.07237843808605637, -0.009311032437344907, -0.0008916746662834264, -7.175715196905961e-05, -6.005032437823291e-06, -3.8833979390565344e-07, 3.8335946635937675e-09, -7.595140321945207e-10}},
    {2.0, 2.4, 2.2, {-3.671933465502902, -2.3059038405683934, -0.5097338574522667, -0.08880022069757694, -0.011280742160643108, -0.001085451433080903, -9.029789432715025e-05, -7.237810709230821e-06, -3.8805858422606414e-07, -5.831187729825077e-09, -3.735449060535795e-09}},
    {2.4, 2.8, 2.5999999999999996, {-4.681835917044102, -2.7593476007975064, -0.6278545994538419, -0.10870842212521584, -0.013685278944216415, -0.0013279051794685554, -0.00011235499130278231, -8.544157390926684e-06, -4.3861316405357856e-07, -2.2616261383040537e-08, -4.256160883559372e-09}},
    {2.8, 3.1, 2.95, {-5.729393190615326, -3.2412464781793187, -0.7526527179898432, -0.12959546127184088, -0.016228864201908007, -0.0015869318987626394, -0.0001348871188551562, -9.893073450118974e-06, -5.319832416916682e-07, -3.607123078386207e-08, -3.3232928867529623e-09}},
    {3.1, 3.3189390950359563, 3.209469547517978, {-6.623409198895127, -3.659173149224345, -0.860373176101345, -0.14755616991967813, -0.018430107709923215, -0.0018114554197437276, -0.00015391457131483063, -1.1091341029726749e-05, -6.25496184984925e-07, -4.365253016241607e-08, -2.5451074891016917e-09}},
};   // measured error 4.3e-16
