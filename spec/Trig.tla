---------------------------------- MODULE Trig ----------------------------------
(* cosine in fixed point, 1 is 100000. the table has 1024 steps for a period, values between are interpolated.
   MC_Trig checks that the table satisfies the identities that determine the function *)
EXTENDS Integers, Sequences
Unit == 100000
Table == <<
  100000, 99998, 99992, 99983, 99970, 99953, 99932, 99908, 99880, 99848, 99812, 99772, 99729, 99682, 99631, 99577, 99518, 99456, 99391, 99321, 99248, 99171, 99090, 99006, 98918, 98826, 98730, 98631, 98528, 98421, 98311, 98196,
  98079, 97957, 97832, 97703, 97570, 97434, 97294, 97150, 97003, 96852, 96698, 96539, 96378, 96212, 96043, 95870, 95694, 95514, 95331, 95144, 94953, 94759, 94561, 94359, 94154, 93946, 93734, 93518, 93299, 93077, 92851, 92621,
  92388, 92151, 91911, 91668, 91421, 91171, 90917, 90660, 90399, 90135, 89867, 89597, 89322, 89045, 88764, 88480, 88192, 87901, 87607, 87309, 87009, 86705, 86397, 86087, 85773, 85456, 85136, 84812, 84485, 84155, 83822, 83486,
  83147, 82805, 82459, 82110, 81758, 81404, 81046, 80685, 80321, 79954, 79584, 79211, 78835, 78456, 78074, 77689, 77301, 76910, 76517, 76120, 75721, 75319, 74914, 74506, 74095, 73682, 73265, 72846, 72425, 72000, 71573, 71143,
  70711, 70275, 69838, 69397, 68954, 68508, 68060, 67609, 67156, 66700, 66242, 65781, 65317, 64851, 64383, 63912, 63439, 62964, 62486, 62006, 61523, 61038, 60551, 60062, 59570, 59076, 58580, 58081, 57581, 57078, 56573, 56066,
  55557, 55046, 54532, 54017, 53500, 52980, 52459, 51936, 51410, 50883, 50354, 49823, 49290, 48755, 48218, 47680, 47140, 46598, 46054, 45508, 44961, 44412, 43862, 43309, 42756, 42200, 41643, 41084, 40524, 39962, 39399, 38835,
  38268, 37701, 37132, 36561, 35990, 35416, 34842, 34266, 33689, 33111, 32531, 31950, 31368, 30785, 30201, 29615, 29028, 28441, 27852, 27262, 26671, 26079, 25487, 24893, 24298, 23702, 23106, 22508, 21910, 21311, 20711, 20110,
  19509, 18907, 18304, 17700, 17096, 16491, 15886, 15280, 14673, 14066, 13458, 12850, 12241, 11632, 11022, 10412, 9802, 9191, 8580, 7968, 7356, 6744, 6132, 5520, 4907, 4294, 3681, 3067, 2454, 1841, 1227, 614,
  0, -614, -1227, -1841, -2454, -3067, -3681, -4294, -4907, -5520, -6132, -6744, -7356, -7968, -8580, -9191, -9802, -10412, -11022, -11632, -12241, -12850, -13458, -14066, -14673, -15280, -15886, -16491, -17096, -17700, -18304, -18907,
  -19509, -20110, -20711, -21311, -21910, -22508, -23106, -23702, -24298, -24893, -25487, -26079, -26671, -27262, -27852, -28441, -29028, -29615, -30201, -30785, -31368, -31950, -32531, -33111, -33689, -34266, -34842, -35416, -35990, -36561, -37132, -37701,
  -38268, -38835, -39399, -39962, -40524, -41084, -41643, -42200, -42756, -43309, -43862, -44412, -44961, -45508, -46054, -46598, -47140, -47680, -48218, -48755, -49290, -49823, -50354, -50883, -51410, -51936, -52459, -52980, -53500, -54017, -54532, -55046,
  -55557, -56066, -56573, -57078, -57581, -58081, -58580, -59076, -59570, -60062, -60551, -61038, -61523, -62006, -62486, -62964, -63439, -63912, -64383, -64851, -65317, -65781, -66242, -66700, -67156, -67609, -68060, -68508, -68954, -69397, -69838, -70275,
  -70711, -71143, -71573, -72000, -72425, -72846, -73265, -73682, -74095, -74506, -74914, -75319, -75721, -76120, -76517, -76910, -77301, -77689, -78074, -78456, -78835, -79211, -79584, -79954, -80321, -80685, -81046, -81404, -81758, -82110, -82459, -82805,
  -83147, -83486, -83822, -84155, -84485, -84812, -85136, -85456, -85773, -86087, -86397, -86705, -87009, -87309, -87607, -87901, -88192, -88480, -88764, -89045, -89322, -89597, -89867, -90135, -90399, -90660, -90917, -91171, -91421, -91668, -91911, -92151,
  -92388, -92621, -92851, -93077, -93299, -93518, -93734, -93946, -94154, -94359, -94561, -94759, -94953, -95144, -95331, -95514, -95694, -95870, -96043, -96212, -96378, -96539, -96698, -96852, -97003, -97150, -97294, -97434, -97570, -97703, -97832, -97957,
  -98079, -98196, -98311, -98421, -98528, -98631, -98730, -98826, -98918, -99006, -99090, -99171, -99248, -99321, -99391, -99456, -99518, -99577, -99631, -99682, -99729, -99772, -99812, -99848, -99880, -99908, -99932, -99953, -99970, -99983, -99992, -99998,
  -100000, -99998, -99992, -99983, -99970, -99953, -99932, -99908, -99880, -99848, -99812, -99772, -99729, -99682, -99631, -99577, -99518, -99456, -99391, -99321, -99248, -99171, -99090, -99006, -98918, -98826, -98730, -98631, -98528, -98421, -98311, -98196,
  -98079, -97957, -97832, -97703, -97570, -97434, -97294, -97150, -97003, -96852, -96698, -96539, -96378, -96212, -96043, -95870, -95694, -95514, -95331, -95144, -94953, -94759, -94561, -94359, -94154, -93946, -93734, -93518, -93299, -93077, -92851, -92621,
  -92388, -92151, -91911, -91668, -91421, -91171, -90917, -90660, -90399, -90135, -89867, -89597, -89322, -89045, -88764, -88480, -88192, -87901, -87607, -87309, -87009, -86705, -86397, -86087, -85773, -85456, -85136, -84812, -84485, -84155, -83822, -83486,
  -83147, -82805, -82459, -82110, -81758, -81404, -81046, -80685, -80321, -79954, -79584, -79211, -78835, -78456, -78074, -77689, -77301, -76910, -76517, -76120, -75721, -75319, -74914, -74506, -74095, -73682, -73265, -72846, -72425, -72000, -71573, -71143,
  -70711, -70275, -69838, -69397, -68954, -68508, -68060, -67609, -67156, -66700, -66242, -65781, -65317, -64851, -64383, -63912, -63439, -62964, -62486, -62006, -61523, -61038, -60551, -60062, -59570, -59076, -58580, -58081, -57581, -57078, -56573, -56066,
  -55557, -55046, -54532, -54017, -53500, -52980, -52459, -51936, -51410, -50883, -50354, -49823, -49290, -48755, -48218, -47680, -47140, -46598, -46054, -45508, -44961, -44412, -43862, -43309, -42756, -42200, -41643, -41084, -40524, -39962, -39399, -38835,
  -38268, -37701, -37132, -36561, -35990, -35416, -34842, -34266, -33689, -33111, -32531, -31950, -31368, -30785, -30201, -29615, -29028, -28441, -27852, -27262, -26671, -26079, -25487, -24893, -24298, -23702, -23106, -22508, -21910, -21311, -20711, -20110,
  -19509, -18907, -18304, -17700, -17096, -16491, -15886, -15280, -14673, -14066, -13458, -12850, -12241, -11632, -11022, -10412, -9802, -9191, -8580, -7968, -7356, -6744, -6132, -5520, -4907, -4294, -3681, -3067, -2454, -1841, -1227, -614,
  0, 614, 1227, 1841, 2454, 3067, 3681, 4294, 4907, 5520, 6132, 6744, 7356, 7968, 8580, 9191, 9802, 10412, 11022, 11632, 12241, 12850, 13458, 14066, 14673, 15280, 15886, 16491, 17096, 17700, 18304, 18907,
  19509, 20110, 20711, 21311, 21910, 22508, 23106, 23702, 24298, 24893, 25487, 26079, 26671, 27262, 27852, 28441, 29028, 29615, 30201, 30785, 31368, 31950, 32531, 33111, 33689, 34266, 34842, 35416, 35990, 36561, 37132, 37701,
  38268, 38835, 39399, 39962, 40524, 41084, 41643, 42200, 42756, 43309, 43862, 44412, 44961, 45508, 46054, 46598, 47140, 47680, 48218, 48755, 49290, 49823, 50354, 50883, 51410, 51936, 52459, 52980, 53500, 54017, 54532, 55046,
  55557, 56066, 56573, 57078, 57581, 58081, 58580, 59076, 59570, 60062, 60551, 61038, 61523, 62006, 62486, 62964, 63439, 63912, 64383, 64851, 65317, 65781, 66242, 66700, 67156, 67609, 68060, 68508, 68954, 69397, 69838, 70275,
  70711, 71143, 71573, 72000, 72425, 72846, 73265, 73682, 74095, 74506, 74914, 75319, 75721, 76120, 76517, 76910, 77301, 77689, 78074, 78456, 78835, 79211, 79584, 79954, 80321, 80685, 81046, 81404, 81758, 82110, 82459, 82805,
  83147, 83486, 83822, 84155, 84485, 84812, 85136, 85456, 85773, 86087, 86397, 86705, 87009, 87309, 87607, 87901, 88192, 88480, 88764, 89045, 89322, 89597, 89867, 90135, 90399, 90660, 90917, 91171, 91421, 91668, 91911, 92151,
  92388, 92621, 92851, 93077, 93299, 93518, 93734, 93946, 94154, 94359, 94561, 94759, 94953, 95144, 95331, 95514, 95694, 95870, 96043, 96212, 96378, 96539, 96698, 96852, 97003, 97150, 97294, 97434, 97570, 97703, 97832, 97957,
  98079, 98196, 98311, 98421, 98528, 98631, 98730, 98826, 98918, 99006, 99090, 99171, 99248, 99321, 99391, 99456, 99518, 99577, 99631, 99682, 99729, 99772, 99812, 99848, 99880, 99908, 99932, 99953, 99970, 99983, 99992, 99998,
  100000>>
\* division that rounds to the nearest
Div(a, b) == (2 * a + b) \div (2 * b)
\* cosine and sine of n / d periods
Cos(n, d) == LET p == 1024 * (n % d)  k == p \div d  f == p % d IN Table[k + 1] + Div((Table[k + 2] - Table[k + 1]) * f, d)
Sin(n, d) == Cos(4 * n - d, 4 * d)
=================================================================================
