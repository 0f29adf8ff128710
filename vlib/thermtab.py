"""the thermal scattering materials: MAT number -> (name of the table, name of the material, nuclides, number of nuclide kinds)"""
O, SI, C = [8016, 8017, 8018], [14028, 14029, 14030], [6000, 6012, 6013]
TH = {1: ('hh2o', 'c_H_in_H2O', [1001], 1), 2: ('parah', 'c_para_H', [1001], 1), 3: ('orthoh', 'c_ortho_H', [1001], 1), 5: ('hyh2', 'c_H_in_YH2', [1001], 1),
      7: ('hzrh', 'c_H_in_ZrH', [1001], 1), 8: ('hcah2', 'c_H_in_CaH2', [1001], 1), 10: ('hice', 'c_H_in_H2O_solid', [1001], 1),
      11: ('dd2o', 'c_D_in_D2O', [1002], 1), 12: ('parad', 'c_para_D', [1002], 1), 13: ('orthod', 'c_ortho_D', [1002], 1), 26: ('be', 'c_Be', [4009], 1),
      27: ('bebeo', 'c_Be_in_BeO', [4009], 1), 31: ('graph', 'c_Graphite', C, 1), 33: ('lch4', 'c_H_in_CH4_liquid', [1001], 1),
      34: ('sch4', 'c_H_in_CH4_solid', [1001], 1), 37: ('hch2', 'c_H_in_CH2', [1001], 1), 39: ('lucite', 'c_H_in_C5O2H8', [1001], 1),
      40: ('benz', 'c_C6H6', [1001, 6000, 6012], 2), 41: ('od2o', 'c_O_in_D2O', O, 1), 43: ('sisic', 'c_Si_in_SiC', SI, 1), 44: ('csic', 'c_C_in_SiC', C, 1),
      46: ('obeo', 'c_O_in_BeO', O, 1), 47: ('sio2-a', 'c_SiO2_alpha', O, 3), 48: ('uuo2', 'c_U_in_UO2', [92238], 1), 49: ('sio2-b', 'c_SiO2_beta', O, 3),
      50: ('oice', 'c_O_in_H2O_ice', O, 1), 52: ('mg24', 'c_Mg24', [12024], 1), 53: ('al27', 'c_Al27', [13027], 1), 55: ('yyh2', 'c_Y_in_YH2', [39089], 1),
      56: ('fe56', 'c_Fe56', [26056], 1), 58: ('zrzrh', 'c_Zr_in_ZrH', [40000, 40090, 40091], 1), 59: ('cacah2', 'c_Ca_in_CaH2', [20040, 20042, 20043], 1),
      75: ('ouo2', 'c_O_in_UO2', O, 1)}
