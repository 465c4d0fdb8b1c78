    {"addet", 0, 66.2, 4},   // median tolerance 1.9e-14, 59783 observations
    {"addet", 1, 17.2, 1},   // median tolerance 7.3e-15, 60000 observations
    {"airmas", 0, 18.1, 4},   // median tolerance 5.8e-14, 60000 observations
    {"altaz", 0, 86.2, 4},   // median tolerance 2.5e-14, 58826 observations
    {"altaz", 1, 31.8, 16},   // median tolerance 3e-14, 58877 observations
    {"altaz", 2, 26.2, 16},   // median tolerance 2.6e-14, 58829 observations
    {"altaz", 3, 18.7, 1},   // median tolerance 8.3e-15, 59946 observations
    {"altaz", 4, 17.6, 4},   // median tolerance 8.8e-15, 59908 observations
    {"altaz", 5, 65.6, 4},   // median tolerance 2e-14, 59864 observations
    {"altaz", 6, 30, 4},   // median tolerance 1.3e-14, 58822 observations
    {"altaz", 7, 27.1, 16},   // median tolerance 2.9e-14, 58884 observations
    {"altaz", 8, 9.81, 16},   // median tolerance 2.2e-14, 58827 observations
    {"atmdsp", 0, 10.5, 16},   // median tolerance 8.4e-18, 46670 observations
    {"atmdsp", 1, 65.2, 4},   // median tolerance 9.3e-20, 46016 observations
    {"av2m", 0, 80, 4},   // median tolerance 1.9e-05, 60000 observations
    {"av2m", 1, 47.7, 4},   // median tolerance 1e-05, 60000 observations
    {"av2m", 2, 47.6, 4},   // median tolerance 9.9e-06, 60000 observations
    {"av2m", 3, 48, 4},   // median tolerance 1e-05, 60000 observations
    {"av2m", 4, 82.2, 4},   // median tolerance 2e-05, 60000 observations
    {"av2m", 5, 21.3, 16},   // median tolerance 1e-05, 60000 observations
    {"av2m", 6, 22.1, 16},   // median tolerance 1e-05, 60000 observations
    {"av2m", 7, 23.4, 16},   // median tolerance 1e-05, 60000 observations
    {"av2m", 8, 56.1, 16},   // median tolerance 1.8e-05, 60000 observations
    {"bear", 1, 40.8, 4},   // median tolerance 2.1e-05, 53738 observations
    {"caf2r", 0, 25.7, 0.01},   // median tolerance 9e-06, 52018 observations
    {"cc2s", 0, 47.6, 4},   // median tolerance 6.9e-06, 54148 observations
    {"cc2s", 1, 7.53, 4},   // median tolerance 2.6e-06, 56547 observations
    {"cc62s", 0, 45.6, 4},   // median tolerance 6.6e-06, 53075 observations
    {"cc62s", 1, 7.65, 4},   // median tolerance 2.6e-06, 56470 observations
    {"cc62s", 2, 28, 0.01},   // median tolerance 3.3e-06, 56905 observations
    {"cc62s", 3, 28.4, 4},   // median tolerance 4e-07, 49521 observations
    {"cc62s", 4, 7.37, 16},   // median tolerance 8.6e-07, 49666 observations
    {"cc62s", 5, 36.6, 4},   // median tolerance 1.4e-06, 52421 observations
    {"cs2c", 0, 11.8, 0.01},   // median tolerance 2e-06, 59984 observations
    {"cs2c", 1, 11.9, 0.01},   // median tolerance 1.8e-06, 59978 observations
    {"cs2c", 2, 6, 0.01},   // median tolerance 1.2e-06, 60000 observations
    {"cs2c6", 0, 45.2, 0.01},   // median tolerance 1.9e-06, 47025 observations
    {"cs2c6", 1, 44.5, 0.01},   // median tolerance 8.5e-07, 45863 observations
    {"cs2c6", 2, 20, 1},   // median tolerance 9.3e-07, 54685 observations
    {"cs2c6", 3, 30.6, 4},   // median tolerance 7.1e-06, 52457 observations
    {"cs2c6", 4, 66.2, 4},   // median tolerance 7.9e-06, 51422 observations
    {"cs2c6", 5, 13.6, 4},   // median tolerance 1e-06, 54125 observations
    {"ctf2d", 0, 25.3, 0.01},   // median tolerance 1.6e-06, 53604 observations
    {"ctf2r", 0, 34.9, 64},   // median tolerance 1.1e-05, 55099 observations
    {"daf2r", 0, 25.5, 0.01},   // median tolerance 1.7e-14, 56587 observations
    {"dat", 0, 6, 4},   // median tolerance 5.1e-14, 58282 observations
    {"dav2m", 0, 77.8, 4},   // median tolerance 3.5e-14, 60000 observations
    {"dav2m", 1, 22.9, 16},   // median tolerance 2.1e-14, 60000 observations
    {"dav2m", 2, 21, 16},   // median tolerance 1.9e-14, 60000 observations
    {"dav2m", 3, 20.3, 16},   // median tolerance 2e-14, 60000 observations
    {"dav2m", 4, 69, 4},   // median tolerance 3.1e-14, 60000 observations
    {"dav2m", 5, 25.6, 16},   // median tolerance 2e-14, 60000 observations
    {"dav2m", 6, 22.9, 16},   // median tolerance 1.9e-14, 60000 observations
    {"dav2m", 7, 22.9, 16},   // median tolerance 1.9e-14, 60000 observations
    {"dav2m", 8, 54.6, 16},   // median tolerance 3.3e-14, 60000 observations
    {"dbear", 1, 28, 4},   // median tolerance 3.3e-14, 55411 observations
    {"dc62s", 0, 30, 0.01},   // median tolerance 6.7e-15, 53604 observations
    {"dc62s", 1, 6, 4},   // median tolerance 4.2e-15, 56475 observations
    {"dc62s", 2, 29.5, 0.01},   // median tolerance 6.6e-15, 57013 observations
    {"dc62s", 3, 21, 4},   // median tolerance 6.5e-16, 50919 observations
    {"dc62s", 4, 6, 16},   // median tolerance 1.5e-15, 50638 observations
    {"dc62s", 5, 36, 4},   // median tolerance 2.4e-15, 53093 observations
    {"dcc2s", 0, 30, 0.01},   // median tolerance 6.7e-15, 54864 observations
    {"dcc2s", 1, 11.7, 0.01},   // median tolerance 4.1e-15, 56990 observations
    {"dcmpf", 0, 26.9, 0.01},   // median tolerance 6.9e-15, 60000 observations
    {"dcmpf", 1, 26.9, 0.01},   // median tolerance 6.9e-15, 60000 observations
    {"dcmpf", 2, 120, 0.01},   // median tolerance 2.7e-14, 59483 observations
    {"dcmpf", 3, 53.3, 0.01},   // median tolerance 1.2e-14, 59814 observations
    {"dcmpf", 5, 2.31e+04, 64},   // median tolerance 4.1e-11, 59436 observations
    {"dcmpf", 6, 4.31e+04, 64},   // median tolerance 7.6e-11, 59459 observations
    {"dcs2c", 0, 11.5, 0.01},   // median tolerance 3.6e-15, 59916 observations
    {"dcs2c", 1, 11.3, 0.01},   // median tolerance 3.2e-15, 59931 observations
    {"dcs2c", 2, 6, 0.01},   // median tolerance 2.3e-15, 60000 observations
    {"de2h", 0, 93.2, 0.1},   // median tolerance 2.1e-14, 59856 observations
    {"de2h", 1, 21.7, 0.01},   // median tolerance 7.7e-15, 59925 observations
    {"deuler", 0, 12.1, 1},   // median tolerance 5.6e-15, 59822 observations
    {"deuler", 1, 14.6, 0.1},   // median tolerance 4.1e-15, 59859 observations
    {"deuler", 2, 13.3, 0.1},   // median tolerance 3.8e-15, 59880 observations
    {"deuler", 3, 14.6, 0.1},   // median tolerance 4.1e-15, 59855 observations
    {"deuler", 4, 12.1, 1},   // median tolerance 5.6e-15, 59823 observations
    {"deuler", 5, 11.4, 1},   // median tolerance 4.9e-15, 59888 observations
    {"deuler", 6, 13.3, 0.1},   // median tolerance 3.8e-15, 59872 observations
    {"deuler", 7, 11.4, 1},   // median tolerance 4.9e-15, 59872 observations
    {"deuler", 8, 12, 1},   // median tolerance 5.6e-15, 59805 observations
    {"dh2e", 0, 46.9, 0.1},   // median tolerance 1.1e-14, 59843 observations
    {"dh2e", 1, 16.8, 1},   // median tolerance 7.6e-15, 59945 observations
    {"dimxv", 1, 10.9, 1},   // median tolerance 7.8e-15, 58008 observations
    {"dimxv", 2, 11.4, 1},   // median tolerance 8.1e-15, 58032 observations
    {"dimxv", 3, 10.5, 1},   // median tolerance 7.6e-15, 57940 observations
    {"dm2av", 0, 32.7, 0.01},   // median tolerance 9.3e-15, 57848 observations
    {"dm2av", 1, 37.6, 0.01},   // median tolerance 1e-14, 57797 observations
    {"dm2av", 2, 32, 0.01},   // median tolerance 9.4e-15, 57846 observations
    {"dmoon", 0, 1.09e+04, 16},   // median tolerance 1.3e-13, 10000 observations
    {"dmoon", 1, 7.36e+03, 16},   // median tolerance 1.3e-13, 10000 observations
    {"dmoon", 2, 1.85e+04, 16},   // median tolerance 6.4e-14, 10000 observations
    {"dmoon", 3, 9.08e+03, 16},   // median tolerance 3.7e-19, 10000 observations
    {"dmoon", 4, 1.14e+04, 16},   // median tolerance 3.3e-19, 10000 observations
    {"dmoon", 5, 2.21e+04, 16},   // median tolerance 1.7e-19, 10000 observations
    {"dmxm", 1, 8.63, 1},   // median tolerance 1.1e-14, 58906 observations
    {"dmxm", 2, 9.39, 1},   // median tolerance 1.2e-14, 58815 observations
    {"dmxm", 3, 6, 4},   // median tolerance 1.2e-14, 58775 observations
    {"dmxm", 4, 8.11, 1},   // median tolerance 1.1e-14, 58870 observations
    {"dmxm", 5, 7.95, 1},   // median tolerance 1e-14, 59003 observations
    {"dmxm", 6, 6, 4},   // median tolerance 1.2e-14, 58843 observations
    {"dmxm", 7, 6, 4},   // median tolerance 1.2e-14, 58766 observations
    {"dmxm", 8, 9.33, 1},   // median tolerance 1.2e-14, 58808 observations
    {"dmxm", 9, 8.05, 1},   // median tolerance 1e-14, 58883 observations
    {"dmxv", 1, 12.4, 1},   // median tolerance 8.6e-15, 57959 observations
    {"dmxv", 2, 10.3, 1},   // median tolerance 7.4e-15, 57951 observations
    {"dmxv", 3, 9.93, 1},   // median tolerance 7.3e-15, 57859 observations
    {"dpav", 1, 23.6, 1},   // median tolerance 1.3e-14, 58804 observations
    {"drange", 0, 6, 0.01},   // median tolerance 1.3e-15, 59800 observations
    {"dranrm", 0, 60, 0.01},   // median tolerance 1.3e-14, 59826 observations
    {"ds2c6", 0, 41.5, 0.01},   // median tolerance 2.9e-15, 48445 observations
    {"ds2c6", 1, 46.6, 0.01},   // median tolerance 1.3e-15, 48419 observations
    {"ds2c6", 2, 20.8, 1},   // median tolerance 1.6e-15, 55246 observations
    {"ds2c6", 3, 47.8, 4},   // median tolerance 1.6e-14, 55277 observations
    {"ds2c6", 4, 31, 4},   // median tolerance 1.1e-14, 54633 observations
    {"ds2c6", 5, 14.4, 4},   // median tolerance 2e-15, 55637 observations
    {"ds2tp", 0, 15.2, 4},   // median tolerance 1.4e-14, 54253 observations
    {"ds2tp", 1, 31.4, 4},   // median tolerance 1.6e-14, 55985 observations
    {"dsep", 0, 18.5, 1},   // median tolerance 1.2e-14, 59912 observations
    {"dsepv", 0, 20.4, 4},   // median tolerance 1.2e-14, 50038 observations
    {"dt", 0, 85.3, 0.01},   // median tolerance 1.1e-10, 60000 observations
    {"dtf2d", 0, 26, 0.01},   // median tolerance 3.1e-15, 56861 observations
    {"dtf2r", 0, 34.5, 0.01},   // median tolerance 2e-14, 58026 observations
    {"dtp2s", 0, 74.2, 4},   // median tolerance 2.2e-14, 59727 observations
    {"dtp2s", 1, 17.4, 0.01},   // median tolerance 6.6e-15, 60000 observations
    {"dtp2v", 0, 21.5, 4},   // median tolerance 8.5e-15, 57014 observations
    {"dtp2v", 1, 26.2, 1},   // median tolerance 8e-15, 57013 observations
    {"dtp2v", 2, 13.6, 4},   // median tolerance 7.9e-15, 60000 observations
    {"dtps2c", 1, 66.2, 4},   // median tolerance 1.8e-14, 59790 observations
    {"dtps2c", 2, 16.1, 4},   // median tolerance 8.5e-15, 60000 observations
    {"dtps2c", 3, 50.7, 64},   // median tolerance 1.1e-14, 59991 observations
    {"dtps2c", 4, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"dtpv2c", 1, 9.98, 16},   // median tolerance 8.5e-15, 59445 observations
    {"dtpv2c", 2, 9.48, 16},   // median tolerance 6.6e-15, 59443 observations
    {"dtpv2c", 3, 15.9, 4},   // median tolerance 6.7e-15, 59534 observations
    {"dtpv2c", 4, 6, 16},   // median tolerance 1.3e-15, 59445 observations
    {"dtpv2c", 5, 6, 16},   // median tolerance 1.3e-15, 59443 observations
    {"dtpv2c", 6, 6, 16},   // median tolerance 1.3e-15, 59534 observations
    {"dtt", 0, 6, 16},   // median tolerance 9.4e-14, 59977 observations
    {"dv2tp", 0, 33.4, 4},   // median tolerance 9.8e-15, 52984 observations
    {"dv2tp", 1, 26, 4},   // median tolerance 1e-14, 53930 observations
    {"dvdv", 1, 16.1, 1},   // median tolerance 8.6e-15, 57773 observations
    {"dvn", 0, 16.3, 0.01},   // median tolerance 5.4e-15, 58993 observations
    {"dvn", 1, 17.3, 0.01},   // median tolerance 5.6e-15, 58990 observations
    {"dvn", 2, 16, 0.01},   // median tolerance 5.4e-15, 58960 observations
    {"dvn", 3, 12.1, 4},   // median tolerance 8.9e-15, 60000 observations
    {"dvxv", 1, 9.52, 1},   // median tolerance 3.3e-15, 55498 observations
    {"dvxv", 2, 9.65, 1},   // median tolerance 3.4e-15, 55519 observations
    {"dvxv", 3, 9.09, 1},   // median tolerance 3.1e-15, 55836 observations
    {"e2h", 0, 85.6, 1},   // median tolerance 1.1e-05, 59920 observations
    {"e2h", 1, 20.5, 1},   // median tolerance 4.8e-06, 59997 observations
    {"earth", 0, 416, 0.01},   // median tolerance 7.6e-05, 60000 observations
    {"earth", 1, 357, 0.01},   // median tolerance 7.6e-05, 60000 observations
    {"earth", 2, 159, 0.01},   // median tolerance 2.5e-05, 60000 observations
    {"earth", 3, 385, 0.01},   // median tolerance 1.7e-11, 60000 observations
    {"earth", 4, 373, 64},   // median tolerance 1.3e-11, 60000 observations
    {"earth", 5, 169, 0.01},   // median tolerance 4.9e-12, 60000 observations
    {"ecleq", 0, 87.5, 1},   // median tolerance 2.1e-14, 59799 observations
    {"ecleq", 1, 27.1, 0.01},   // median tolerance 1.1e-14, 59986 observations
    {"ecmat", 0, 6, 0.01},   // median tolerance 2.7e-15, 60000 observations
    {"ecmat", 1, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"ecmat", 2, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"ecmat", 3, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"ecmat", 4, 7.82, 0.01},   // median tolerance 3.3e-15, 60000 observations
    {"ecmat", 5, 6, 0.01},   // median tolerance 1.9e-15, 60000 observations
    {"ecmat", 6, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"ecmat", 7, 6, 0.01},   // median tolerance 1.9e-15, 60000 observations
    {"ecmat", 8, 7.82, 0.01},   // median tolerance 3.3e-15, 60000 observations
    {"ecor", 0, 260, 4},   // median tolerance 0.0014, 9995 observations
    {"ecor", 1, 350, 0.1},   // median tolerance 0.029, 9984 observations
    {"eg50", 0, 92, 4},   // median tolerance 2.4e-14, 59877 observations
    {"eg50", 1, 53.5, 4},   // median tolerance 2.3e-14, 59904 observations
    {"epb", 0, 13.5, 16},   // median tolerance 7.1e-12, 60000 observations
    {"epb2d", 0, 30.5, 4},   // median tolerance 4.6e-09, 60000 observations
    {"epco", 0, 18.3, 0.01},   // median tolerance 6.6e-12, 60000 observations
    {"epj", 0, 12.1, 16},   // median tolerance 6.5e-12, 60000 observations
    {"epj2d", 0, 26.4, 4},   // median tolerance 4e-09, 60000 observations
    {"epv", 0, 2.82e+04, 0.01},   // median tolerance 1.1e-11, 10000 observations
    {"epv", 1, 1.74e+04, 0.01},   // median tolerance 6.5e-12, 10000 observations
    {"epv", 2, 7.92e+03, 0.01},   // median tolerance 2.3e-12, 10000 observations
    {"epv", 3, 1.19e+04, 16},   // median tolerance 1.4e-13, 10000 observations
    {"epv", 4, 1.9e+04, 0.01},   // median tolerance 1.3e-13, 10000 observations
    {"epv", 5, 8.39e+03, 0.01},   // median tolerance 4.6e-14, 10000 observations
    {"epv", 6, 2.81e+04, 0.01},   // median tolerance 1e-11, 10000 observations
    {"epv", 7, 1.74e+04, 0.01},   // median tolerance 6.5e-12, 10000 observations
    {"epv", 8, 7.94e+03, 0.01},   // median tolerance 2.3e-12, 10000 observations
    {"epv", 9, 1.19e+04, 16},   // median tolerance 1.4e-13, 10000 observations
    {"epv", 10, 1.9e+04, 0.01},   // median tolerance 1.3e-13, 10000 observations
    {"epv", 11, 8.39e+03, 0.01},   // median tolerance 4.6e-14, 10000 observations
    {"eqecl", 0, 94.1, 1},   // median tolerance 2.2e-14, 59822 observations
    {"eqecl", 1, 23.7, 4},   // median tolerance 1.3e-14, 59990 observations
    {"eqeqx", 0, 4.36e+04, 1},   // median tolerance 1.5e-15, 10000 observations
    {"eqgal", 0, 94.3, 1},   // median tolerance 2.2e-14, 59890 observations
    {"eqgal", 1, 23, 0.01},   // median tolerance 7.6e-15, 59929 observations
    {"etrms", 0, 6.93, 16},   // median tolerance 2e-20, 60000 observations
    {"etrms", 1, 15.2, 0.01},   // median tolerance 3.5e-20, 60000 observations
    {"etrms", 2, 6.87, 0.01},   // median tolerance 1.5e-20, 60000 observations
    {"euler", 0, 6, 0.01},   // median tolerance 1.3e-06, 59950 observations
    {"euler", 1, 6, 0.01},   // median tolerance 8.4e-07, 59958 observations
    {"euler", 2, 6, 0.01},   // median tolerance 8.4e-07, 59958 observations
    {"euler", 3, 6, 0.01},   // median tolerance 8.4e-07, 59960 observations
    {"euler", 4, 6, 0.01},   // median tolerance 1.3e-06, 59948 observations
    {"euler", 5, 6, 0.01},   // median tolerance 8.4e-07, 59956 observations
    {"euler", 6, 6, 0.01},   // median tolerance 8.4e-07, 59963 observations
    {"euler", 7, 6, 0.01},   // median tolerance 8.4e-07, 59953 observations
    {"euler", 8, 6, 0.01},   // median tolerance 1.3e-06, 59961 observations
    {"evp", 0, 2.63e+08, 0.01},   // median tolerance 2e-14, 8574 observations
    {"evp", 1, 3.15e+08, 0.01},   // median tolerance 2.3e-14, 8574 observations
    {"evp", 2, 1.43e+08, 0.01},   // median tolerance 8.1e-15, 8574 observations
    {"evp", 3, 3.92e+08, 0.01},   // median tolerance 1.5e-07, 8574 observations
    {"evp", 4, 2.98e+08, 0.01},   // median tolerance 1.1e-07, 8574 observations
    {"evp", 5, 1.39e+08, 0.01},   // median tolerance 4e-08, 8574 observations
    {"evp", 6, 2.62e+08, 0.01},   // median tolerance 2e-14, 8574 observations
    {"evp", 7, 3.14e+08, 0.01},   // median tolerance 2.3e-14, 8574 observations
    {"evp", 8, 1.44e+08, 0.01},   // median tolerance 8.2e-15, 8574 observations
    {"evp", 9, 3.97e+08, 0.01},   // median tolerance 1.5e-07, 8574 observations
    {"evp", 10, 2.99e+08, 0.01},   // median tolerance 1.1e-07, 8574 observations
    {"evp", 11, 1.4e+08, 0.01},   // median tolerance 4e-08, 8574 observations
    {"fitxy", 1, 9.79e+03, 64},   // median tolerance 3.1e-12, 59719 observations
    {"fitxy", 2, 5.48e+03, 64},   // median tolerance 1.8e-12, 59719 observations
    {"fitxy", 3, 1.23e+04, 64},   // median tolerance 3.7e-12, 59719 observations
    {"fitxy", 4, 7.89e+03, 64},   // median tolerance 2.5e-12, 59719 observations
    {"fitxy", 5, 1.08e+04, 64},   // median tolerance 3.3e-12, 59719 observations
    {"fitxy", 6, 2.29e+03, 64},   // median tolerance 8.1e-13, 59719 observations
    {"galeq", 0, 101, 0.01},   // median tolerance 2.2e-14, 59889 observations
    {"galeq", 1, 23.3, 0.01},   // median tolerance 7.6e-15, 59907 observations
    {"galsup", 0, 83.6, 4},   // median tolerance 2.2e-14, 59934 observations
    {"galsup", 1, 23, 0.01},   // median tolerance 7.2e-15, 59913 observations
    {"ge50", 0, 128, 0.01},   // median tolerance 2.8e-14, 59890 observations
    {"ge50", 1, 26.3, 0.01},   // median tolerance 8.7e-15, 59912 observations
    {"geoc", 0, 30.9, 0.01},   // median tolerance 4.8e-19, 60000 observations
    {"geoc", 1, 30, 0.01},   // median tolerance 4.7e-19, 60000 observations
    {"gmst", 0, 4.39e+04, 0.01},   // median tolerance 1.1e-11, 48445 observations
    {"gmsta", 0, 5.06e+04, 0.01},   // median tolerance 1.2e-11, 22304 observations
    {"h2e", 0, 41.2, 0.01},   // median tolerance 4.9e-06, 59897 observations
    {"h2e", 1, 10.1, 1},   // median tolerance 2.8e-06, 59992 observations
    {"imxv", 1, 11.5, 1},   // median tolerance 4.4e-06, 57734 observations
    {"imxv", 2, 10.6, 1},   // median tolerance 4.1e-06, 57749 observations
    {"imxv", 3, 10.6, 1},   // median tolerance 4.1e-06, 57780 observations
    {"invf", 0, 22.3, 4},   // median tolerance 1.5e-14, 56508 observations
    {"invf", 1, 24.1, 4},   // median tolerance 9e-15, 57033 observations
    {"invf", 2, 20.2, 4},   // median tolerance 7.7e-15, 51388 observations
    {"invf", 3, 35.4, 4},   // median tolerance 1.8e-14, 56522 observations
    {"invf", 4, 23.4, 4},   // median tolerance 8.4e-15, 51388 observations
    {"invf", 5, 23.1, 4},   // median tolerance 8.9e-15, 57033 observations
    {"m2av", 0, 43.7, 0.01},   // median tolerance 6.5e-06, 56293 observations
    {"m2av", 1, 39.9, 0.01},   // median tolerance 5.8e-06, 56262 observations
    {"m2av", 2, 37.5, 0.01},   // median tolerance 5.8e-06, 56267 observations
    {"moon", 0, 1.14e+04, 64},   // median tolerance 6e-06, 60000 observations
    {"moon", 1, 1.19e+04, 64},   // median tolerance 6.1e-06, 60000 observations
    {"moon", 2, 5.39e+03, 64},   // median tolerance 2.1e-06, 60000 observations
    {"moon", 3, 1.2e+04, 64},   // median tolerance 1.7e-11, 60000 observations
    {"moon", 4, 1.07e+04, 64},   // median tolerance 1.4e-11, 60000 observations
    {"moon", 5, 5.56e+03, 0.01},   // median tolerance 5.8e-12, 60000 observations
    {"mxm", 1, 8.1, 1},   // median tolerance 5.7e-06, 58944 observations
    {"mxm", 2, 6, 4},   // median tolerance 6.6e-06, 58865 observations
    {"mxm", 3, 9.65, 1},   // median tolerance 6.6e-06, 58653 observations
    {"mxm", 4, 8.86, 1},   // median tolerance 6.1e-06, 58775 observations
    {"mxm", 5, 8.45, 1},   // median tolerance 5.9e-06, 58970 observations
    {"mxm", 6, 6, 4},   // median tolerance 6.6e-06, 58657 observations
    {"mxm", 7, 6.1, 4},   // median tolerance 6.7e-06, 58589 observations
    {"mxm", 8, 9.2, 1},   // median tolerance 6.3e-06, 58687 observations
    {"mxm", 9, 8.85, 1},   // median tolerance 6.1e-06, 58905 observations
    {"mxv", 1, 11.1, 1},   // median tolerance 4.3e-06, 57795 observations
    {"mxv", 2, 12.4, 1},   // median tolerance 4.7e-06, 57759 observations
    {"mxv", 3, 11.2, 1},   // median tolerance 4.3e-06, 57854 observations
    {"nut", 0, 6, 0.01},   // median tolerance 2.7e-15, 10000 observations
    {"nut", 1, 6, 0.01},   // median tolerance 1.3e-15, 10000 observations
    {"nut", 2, 6, 0.01},   // median tolerance 1.3e-15, 10000 observations
    {"nut", 3, 6, 0.01},   // median tolerance 1.3e-15, 10000 observations
    {"nut", 4, 19.7, 0.01},   // median tolerance 8.8e-15, 10000 observations
    {"nut", 5, 22.3, 0.01},   // median tolerance 5e-15, 10000 observations
    {"nut", 6, 6, 0.01},   // median tolerance 1.3e-15, 10000 observations
    {"nut", 7, 22.9, 0.01},   // median tolerance 5.1e-15, 10000 observations
    {"nut", 8, 18, 0.01},   // median tolerance 8e-15, 10000 observations
    {"nutc", 0, 4.31e+04, 64},   // median tolerance 1.8e-15, 10000 observations
    {"nutc", 1, 1.95e+04, 64},   // median tolerance 6.9e-16, 10000 observations
    {"nutc", 2, 20.7, 64},   // median tolerance 1.9e-15, 10000 observations
    {"nutc80", 0, 7.67e+04, 4},   // median tolerance 2.7e-15, 10000 observations
    {"nutc80", 1, 3.13e+04, 1},   // median tolerance 9.2e-16, 10000 observations
    {"nutc80", 2, 20.8, 0.01},   // median tolerance 1.9e-15, 10000 observations
    {"obs", 3, 15.8, 0.01},   // median tolerance 7.9e-15, 60000 observations
    {"obs", 4, 8.62, 0.01},   // median tolerance 3e-15, 60000 observations
    {"obs", 5, 6, 0.01},   // median tolerance 2.3e-12, 60000 observations
    {"pa", 0, 33.4, 4},   // median tolerance 1.3e-14, 58860 observations
    {"pav", 1, 15, 0.01},   // median tolerance 4e-06, 57250 observations
    {"pcd", 0, 17.6, 4},   // median tolerance 1.3e-17, 56977 observations
    {"pcd", 1, 20.1, 4},   // median tolerance 1.4e-17, 57050 observations
    {"pda2h", 2, 55.4, 64},   // median tolerance 1.2e-14, 59873 observations
    {"pda2h", 3, 139, 64},   // median tolerance 3.1e-14, 59872 observations
    {"pdq2h", 2, 42.6, 64},   // median tolerance 9.5e-15, 59881 observations
    {"pdq2h", 3, 91.4, 64},   // median tolerance 2e-14, 59873 observations
    {"pm", 0, 64.7, 4},   // median tolerance 1.8e-14, 59456 observations
    {"pm", 1, 18.2, 0.01},   // median tolerance 7.1e-15, 59989 observations
    {"polmo", 0, 20.7, 4},   // median tolerance 7.7e-15, 59765 observations
    {"polmo", 1, 24.5, 0.01},   // median tolerance 9.5e-15, 60000 observations
    {"polmo", 2, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"polmo", 3, 17.8, 4},   // median tolerance 8.7e-15, 60000 observations
    {"prebn", 0, 10.7, 16},   // median tolerance 5.1e-15, 60000 observations
    {"prebn", 1, 6.62, 0.01},   // median tolerance 1.5e-15, 60000 observations
    {"prebn", 2, 6, 0.01},   // median tolerance 1.4e-15, 60000 observations
    {"prebn", 3, 6.67, 0.01},   // median tolerance 1.6e-15, 60000 observations
    {"prebn", 4, 7.38, 64},   // median tolerance 4.5e-15, 60000 observations
    {"prebn", 5, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"prebn", 6, 6, 0.01},   // median tolerance 1.4e-15, 60000 observations
    {"prebn", 7, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"prebn", 8, 6, 16},   // median tolerance 2.7e-15, 60000 observations
    {"prec", 0, 11.2, 16},   // median tolerance 5.8e-15, 60000 observations
    {"prec", 1, 9.76, 0.01},   // median tolerance 2.3e-15, 60000 observations
    {"prec", 2, 6, 0.01},   // median tolerance 1.4e-15, 60000 observations
    {"prec", 3, 9.78, 0.01},   // median tolerance 2.4e-15, 60000 observations
    {"prec", 4, 9.61, 16},   // median tolerance 4.9e-15, 60000 observations
    {"prec", 5, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"prec", 6, 6, 0.01},   // median tolerance 1.4e-15, 60000 observations
    {"prec", 7, 6, 0.01},   // median tolerance 1.3e-15, 60000 observations
    {"prec", 8, 6, 16},   // median tolerance 2.7e-15, 60000 observations
    {"preces", 0, 6, 64},   // median tolerance 1.3e-15, 59953 observations
    {"preces", 1, 6, 16},   // median tolerance 1.3e-13, 60000 observations
    {"precl", 0, 16.6, 16},   // median tolerance 1.8e-14, 60000 observations
    {"precl", 1, 15.8, 16},   // median tolerance 1.4e-14, 60000 observations
    {"precl", 2, 14.1, 16},   // median tolerance 7.6e-15, 60000 observations
    {"precl", 3, 16.4, 16},   // median tolerance 1.4e-14, 60000 observations
    {"precl", 4, 14.4, 16},   // median tolerance 1.6e-14, 60000 observations
    {"precl", 5, 32.8, 0.01},   // median tolerance 8.3e-15, 60000 observations
    {"precl", 6, 13.6, 16},   // median tolerance 7.5e-15, 60000 observations
    {"precl", 7, 25.3, 4},   // median tolerance 7.6e-15, 60000 observations
    {"precl", 8, 17.7, 0.01},   // median tolerance 7.6e-15, 60000 observations
    {"prenut", 0, 19.2, 0.01},   // median tolerance 8.5e-15, 10000 observations
    {"prenut", 1, 9.26, 1},   // median tolerance 2.5e-15, 10000 observations
    {"prenut", 2, 6, 0.01},   // median tolerance 1.4e-15, 10000 observations
    {"prenut", 3, 9.32, 1},   // median tolerance 2.6e-15, 10000 observations
    {"prenut", 4, 26.8, 1},   // median tolerance 1.2e-14, 10000 observations
    {"prenut", 5, 21.2, 16},   // median tolerance 4.8e-15, 10000 observations
    {"prenut", 6, 6, 0.01},   // median tolerance 1.4e-15, 10000 observations
    {"prenut", 7, 21.7, 0.01},   // median tolerance 4.8e-15, 10000 observations
    {"prenut", 8, 24.4, 0.01},   // median tolerance 1.1e-14, 10000 observations
    {"pvobs", 0, 34.9, 0.01},   // median tolerance 4.5e-19, 59905 observations
    {"pvobs", 1, 34.8, 0.01},   // median tolerance 4e-19, 59910 observations
    {"pvobs", 2, 31.6, 0.01},   // median tolerance 4.8e-19, 60000 observations
    {"pvobs", 3, 29.5, 0.1},   // median tolerance 2.6e-23, 59914 observations
    {"pvobs", 4, 33.4, 0.01},   // median tolerance 3.2e-23, 59907 observations
    {"pvobs", 5, 6, 0.01},   // median tolerance 4e-24, 60000 observations
    {"pxy", 0, 14.7, 4},   // median tolerance 1.3e-14, 60000 observations
    {"pxy", 1, 11.3, 4},   // median tolerance 1.1e-14, 60000 observations
    {"pxy", 2, 10.6, 4},   // median tolerance 8.4e-15, 60000 observations
    {"pxy", 3, 12.4, 4},   // median tolerance 9.2e-15, 60000 observations
    {"pxy", 4, 10.4, 4},   // median tolerance 5.8e-15, 60000 observations
    {"pxy", 5, 11.9, 4},   // median tolerance 6.3e-15, 60000 observations
    {"pxy", 6, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 7, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 8, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 9, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 10, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 11, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 12, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 13, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 14, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 15, 6, 16},   // median tolerance 1.3e-15, 60000 observations
    {"pxy", 16, 25.2, 4},   // median tolerance 2.5e-14, 60000 observations
    {"pxy", 17, 26.3, 4},   // median tolerance 2.6e-14, 60000 observations
    {"pxy", 18, 50.6, 1},   // median tolerance 5.8e-14, 60000 observations
    {"range", 0, 6, 0.01},   // median tolerance 7.2e-07, 58378 observations
    {"ranorm", 0, 60, 0.01},   // median tolerance 7.2e-06, 58347 observations
    {"rcc", 0, 3.6e+04, 16},   // median tolerance 2.7e-14, 10000 observations
    {"refco", 0, 4.98e+05, 64},   // median tolerance 1.4e-13, 9974 observations
    {"refco", 1, 1.3e+07, 64},   // median tolerance 3.6e-15, 9974 observations
    {"refcoq", 0, 33.6, 4},   // median tolerance 1.6e-17, 59639 observations
    {"refcoq", 1, 217, 16},   // median tolerance 5.8e-20, 59575 observations
    {"refro", 0, 2.65e+06, 64},   // median tolerance 6e-12, 9981 observations
    {"refv", 0, 12.5, 4},   // median tolerance 5.2e-15, 59933 observations
    {"refv", 1, 11.6, 4},   // median tolerance 4.4e-15, 59941 observations
    {"refv", 2, 6.25, 4},   // median tolerance 5e-15, 57703 observations
    {"refz", 0, 10.5, 0.1},   // median tolerance 4.7e-15, 54429 observations
    {"rverot", 0, 14, 4},   // median tolerance 2.1e-06, 59991 observations
    {"rvgalc", 0, 16.5, 4},   // median tolerance 0.0011, 60000 observations
    {"rvlg", 0, 21, 1},   // median tolerance 0.0014, 60000 observations
    {"rvlsrd", 0, 21, 0.1},   // median tolerance 6.3e-05, 59997 observations
    {"rvlsrk", 0, 27.8, 1},   // median tolerance 0.00011, 59996 observations
    {"s2tp", 0, 17.9, 4},   // median tolerance 7.5e-06, 52533 observations
    {"s2tp", 1, 26.5, 4},   // median tolerance 7.5e-06, 53130 observations
    {"sep", 0, 9.74, 0.1},   // median tolerance 3e-06, 59865 observations
    {"sepv", 0, 14.9, 0.01},   // median tolerance 3.2e-06, 48716 observations
    {"subet", 0, 87.5, 1},   // median tolerance 2e-14, 59779 observations
    {"subet", 1, 19.6, 0.01},   // median tolerance 7.7e-15, 60000 observations
    {"supgal", 0, 82.6, 4},   // median tolerance 2.2e-14, 59920 observations
    {"supgal", 1, 23, 0.01},   // median tolerance 6.6e-15, 59903 observations
    {"svdcov", 0, 43.2, 1},   // median tolerance 2.9e-13, 37029 observations
    {"svdcov", 1, 20.1, 4},   // median tolerance 1.7e-13, 37010 observations
    {"svdcov", 2, 20.1, 4},   // median tolerance 1.7e-13, 36999 observations
    {"svdcov", 3, 20.1, 4},   // median tolerance 1.7e-13, 37010 observations
    {"svdcov", 4, 39.7, 1},   // median tolerance 2.6e-13, 37019 observations
    {"svdcov", 5, 10.6, 4},   // median tolerance 1.5e-13, 37011 observations
    {"svdcov", 6, 20.1, 4},   // median tolerance 1.7e-13, 36999 observations
    {"svdcov", 7, 10.6, 4},   // median tolerance 1.5e-13, 37011 observations
    {"svdcov", 8, 46.6, 1},   // median tolerance 2.9e-13, 37024 observations
    {"svdsol", 0, 141, 4},   // median tolerance 4e-12, 36621 observations
    {"svdsol", 1, 6, 16},   // median tolerance 4.9e-12, 36661 observations
    {"svdsol", 2, 65.8, 4},   // median tolerance 2.5e-12, 36665 observations
    {"tp2s", 0, 81.7, 4},   // median tolerance 1.2e-05, 59771 observations
    {"tp2s", 1, 18.5, 1},   // median tolerance 4.1e-06, 60000 observations
    {"tp2v", 0, 25, 0.01},   // median tolerance 4.1e-06, 56378 observations
    {"tp2v", 1, 24.1, 1},   // median tolerance 3.9e-06, 56416 observations
    {"tp2v", 2, 22.3, 0.01},   // median tolerance 4.5e-06, 60000 observations
    {"tps2c", 1, 76.2, 4},   // median tolerance 1.1e-05, 59739 observations
    {"tps2c", 2, 22.1, 1},   // median tolerance 4.6e-06, 59925 observations
    {"tps2c", 3, 46.6, 64},   // median tolerance 5.6e-06, 59914 observations
    {"tps2c", 4, 6, 16},   // median tolerance 7.2e-07, 59925 observations
    {"tpv2c", 1, 6, 16},   // median tolerance 4.7e-06, 52827 observations
    {"tpv2c", 2, 6, 16},   // median tolerance 3.8e-06, 52825 observations
    {"tpv2c", 3, 15.5, 4},   // median tolerance 3.8e-06, 52831 observations
    {"tpv2c", 4, 6, 16},   // median tolerance 7.2e-07, 52827 observations
    {"tpv2c", 5, 6, 16},   // median tolerance 7.2e-07, 52825 observations
    {"tpv2c", 6, 6, 16},   // median tolerance 7.2e-07, 52831 observations
    {"unpcd", 1, 2.66e+03, 64},   // median tolerance 1.3e-12, 54130 observations
    {"unpcd", 2, 3.05e+03, 64},   // median tolerance 1.5e-12, 54264 observations
    {"v2tp", 0, 22.5, 4},   // median tolerance 3.8e-06, 48893 observations
    {"v2tp", 1, 23.4, 4},   // median tolerance 4.9e-06, 48892 observations
    {"vdv", 1, 12.6, 1},   // median tolerance 3.8e-06, 57533 observations
    {"vn", 0, 16.4, 0.01},   // median tolerance 2.9e-06, 58964 observations
    {"vn", 1, 15.2, 0.01},   // median tolerance 2.6e-06, 58943 observations
    {"vn", 2, 15.8, 0.01},   // median tolerance 2.9e-06, 58975 observations
    {"vn", 3, 12.3, 4},   // median tolerance 4.8e-06, 60000 observations
    {"vxv", 1, 9.96, 1},   // median tolerance 1.9e-06, 55009 observations
    {"vxv", 2, 10, 1},   // median tolerance 1.9e-06, 55263 observations
    {"vxv", 3, 8.61, 1},   // median tolerance 1.7e-06, 54620 observations
    {"xy2xy", 0, 13.7, 4},   // median tolerance 1.6e-14, 59803 observations
    {"xy2xy", 1, 18.6, 4},   // median tolerance 1.8e-14, 59787 observations
    {"zd", 0, 15.9, 1},   // median tolerance 1e-14, 59954 observations
